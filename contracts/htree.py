"""hypergirgs::HyperbolicTree: specification and contracts shared by C08, C11, C12, C20 (the one-dimensional sibling of gtree.py)

One fixed pair of distinct vertices u,v.  A unit of work is one call of a sampling function; a turn number U counts
isMyTurn calls; SH(k) is a worker's thread_shift after k turns (SH(k+1) = SH(k)+1==num_threads ? 0 : SH(k)+1)."""
from contracts.gtree import *
from contracts import gtree
HT="hypergirgs::HyperbolicTree::"; AH="hypergirgs::AngleHelper::"; RL="hypergirgs::RadiusLayer::"; PT="hypergirgs::Point::"; DF="hypergirgs::DistanceFilter::"
HMEM=["m_profile","m_n","m_coshR","m_T","m_R","m_layers","m_levels","m_points","m_first_in_cell","m_layer_pairs","m_radius_layers","m_typeI_filter","m_typeII_filter"]
HTU="""#include <vector>
#include <random>
#include <algorithm>
#include <numeric>
#include <limits>
#include <cassert>
#include <cmath>
#include <array>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <string>
#include <sstream>
#include <fstream>
#include <iostream>
#include <functional>
#include <omp.h>
#define private public
#define protected public
#include <hypergirgs/HyperbolicTree.h>
#undef private
#undef protected
extern "C" void verif_emit(int,int,int);
struct CB { void operator()(int a,int b,int t){ verif_emit(a,b,t);} };
template class hypergirgs::HyperbolicTree<CB>;
namespace hg=hypergirgs; using TR=hg::HyperbolicTree<CB>;
unsigned (*force_pbl)(double,double,double) noexcept=&hg::RadiusLayer::partitioningBaseLevel;
"""
def htu():
    t=HTU
    for m in HMEM: t+=f"extern const unsigned long verif_off_{m}=__builtin_offsetof(TR,{m});\n"
    t+="extern const unsigned long verif_size_layer=sizeof(hg::RadiusLayer);\nextern const unsigned long verif_size_gen=sizeof(hypergirgs::default_random_engine);\nextern const unsigned long verif_size_point=sizeof(hg::Point);\nextern const unsigned long verif_size_filter=sizeof(hg::DistanceFilter<100>);\n"
    for f in("m_r_min","m_r_max","m_target_level"): t+=f"extern const unsigned long verif_layer_{f}=__builtin_offsetof(hg::RadiusLayer,{f});\n"
    for f in("id","cell_id","invsinh_r","coth_r","cos_phi","sin_phi"): t+=f"extern const unsigned long verif_point_{f}=__builtin_offsetof(hg::Point,{f});\n"
    return t
HKEEP=[HT+k for k in("HyperbolicTree","generate","visitCellPair","visitCellPairCreateTasks","visitCellPairSample","sampleTypeI","sampleTypeII","partitioningBaseLevel","connectionProbRec","initialize_prngs")]+[AH+k for k in("touching","dist","cellsBetween","firstCellOfLevel","numCellsInLevel","cellForPoint","bounds")]+[RL+k for k in("cellIterators","pointsInCell","kthPoint","levelledCell","partitioningBaseLevel","buildPartition")]+[PT+k for k in("isDistanceBelowR","hyperbolicDistanceCosh","hyperbolicDistance","Point")]+[DF+k for k in("coshDistForProb_upperBound","coshDistForProb_lowerBound","DistanceFilter","invConnectionProb")]+["hypergirgs::hyperbolicDistance"]
def hkeep(n,d):
    b=sym.base_name(d)
    if b in HKEEP or "omp_outlined" in n: return True
    if re.match(r"std::(uniform_real_distribution|uniform_int_distribution|geometric_distribution|mersenne_twister_engine|random_device|seed_seq)::(operator\(\)|seed|\(\)|random_device|~random_device|mersenne_twister_engine|seed_seq|~seed_seq)",b): return True
    if re.match(r"std::vector::(vector|~vector|push_back|emplace_back|resize|reserve|operator=)$",b): return True
    if re.match(r"std::(min_element|max_element|accumulate|partition|generate|_V2::|condition_variable|mutex|unique_lock|lock_guard)",b): return True
    if re.match(r"(girgs::|hypergirgs::)?ScopedTimer::",b): return True
    if re.match(r"std::__cxx11::basic_string::(basic_string|~basic_string)$",b): return True
    if re.match(r"intsort::intsort$",b): return True
    return False
class HTree(Tree):
    D=1; C=2
    def __init__(T,c,E,m,st):
        T.E=E; T.m=m; T.off={k:const(m,"off_"+k) for k in HMEM}
        T.FIRST=UF("FIRST",IS(),IS()); T.TOUCH=UF("TOUCH",IS(),IS(),IS(),z3.BoolSort()); T.CU=UF("cu",IS(),IS()); T.CV=UF("cv",IS(),IS()); T.KU=UF("ku",IS(),IS()); T.KV=UF("kv",IS(),IS())
        T.PBL=UF("PBL",IS(),IS(),IS()); T.NEAR=UF("NEAR",IS(),IS(),IS(),z3.BoolSort()); T.TGT=UF("TARGET",IS(),IS()); T.LF=UF("pairs_first",IS(),z3.ArraySort(IS(),IS())); T.LS=UF("pairs_second",IS(),z3.ArraySort(IS(),IS())); T.LLEN=UF("pairs_len",IS(),IS())
        T.levels=z3.Int("m_levels"); T.layers=z3.Int("m_layers"); T.iu,T.iv=z3.Ints("iu iv"); T.p=z3.Int("p"); T.k1,T.k2=z3.Ints("k1 k2"); T.T=z3.Real("m_T"); T.R=z3.Real("m_R"); T.coshR=z3.Real("m_coshR"); T.n=z3.Int("m_n")
        T.alpha=z3.If(T.T==0,INF,z3.RealVal(1))
        st.pc+=[T.levels>=1,T.levels<=31,T.layers>=1,T.layers<=30000,0<=T.iu,T.iu<T.layers,0<=T.iv,T.iv<T.layers,T.p==T.PBL(T.iu,T.iv),T.p==T.PBL(T.iv,T.iu),0<=T.p,T.p<T.levels,T.k1>=0,T.k2>=0,(T.iu==T.iv)==(T.k1==T.k2),T.FIRST(T.levels)<=(1<<31),z3.Or(T.T==0,z3.And(T.T>z3.RealVal("1/1000000000000000"),T.T<1)),INF>1000,T.n>=2,T.n<(1<<31),T.R>0,T.coshR>1]
        st.pc+=[T.FIRST(z3.IntVal(0))==0,T.CU(z3.IntVal(0))==0,T.CV(z3.IntVal(0))==0]
        o=T.off; r=T.this=E.new_obj(st,"this"); r.readonly=True; mem=st.mem[r.id]
        mem[(o["m_T"],8)]=R(T.T); mem[(o["m_R"],8)]=R(T.R); mem[(o["m_coshR"],8)]=R(T.coshR); mem[(o["m_n"],8)]=I(64,T.n,2,(1<<31)-1); mem[(o["m_profile"],1)]=I(8,z3.Int("m_profile"),0,1)
        mem[(o["m_levels"],4)]=I(32,T.levels,1,31); mem[(o["m_layers"],4)]=I(32,T.layers,1,30000)
        T.pairs=E.new_arr(st,"m_layer_pairs",24,{0:("fn",T.list_begin),8:("fn",T.list_end)},T.levels); T.pairs.readonly=True
        mem[(o["m_layer_pairs"],8)]=P(T.pairs,0); mem[(o["m_layer_pairs"]+8,8)]=P(T.pairs,24*T.levels)
        T.szl=const(m,"size_layer"); T.RMIN=UF("r_min",IS(),RS())
        T.wl=E.new_arr(st,"m_radius_layers",T.szl,{const(m,"layer_m_r_min"):("real",),const(m,"layer_m_target_level"):("int",32)},T.layers); T.wl.readonly=True
        mem[(o["m_radius_layers"],8)]=P(T.wl,0); mem[(o["m_radius_layers"]+8,8)]=P(T.wl,z3.simplify(T.szl*T.layers))
        T.gens=E.new_arr(st,"gens",const(m,"size_gen"),{},z3.Int("ngens")); T.gidx=z3.Int("gen_index"); T.gen=P(T.gens,z3.simplify(const(m,"size_gen")*T.gidx))
        T.lists={}; st.g["cnt"]=z3.Int("cnt0")
    def h_same_gen(T,eng,st,a):
        eng.oblige(st,"the random number generator given to a recursive call is the one received",z3.BoolVal(a[-1].r is T.gens) if a[-1].r is not T.gens else toZ(a[-1].o)==toZ(T.gen.o),"post")
    def h_touching(T,eng,st,a,inst):
        x,y,l=[eng.wrapu(st,v) for v in a[-3:]]; st.pc.append(z3.Implies(toZ(x)==toZ(y),T.TOUCH(toZ(l),toZ(x),toZ(y)))); return B(T.TOUCH(toZ(l),toZ(x),toZ(y)))
    def lev(T,st,l):
        Tree.lev(T,st,l); l=z3.simplify(toZ(l)); st.pc+=[T.TOUCH(l,T.CU(l),T.CV(l))==T.TOUCH(l,T.CV(l),T.CU(l))]
    def pre_visit(T,a,b,l):
        a,b,l=toZ(a),toZ(b),toZ(l); near=[l==0,T.NEAR(l,a,b)]
        if T.parents:
            A_,B_=T.parents; kid=lambda x,Q:z3.And(x>=2*Q+1,x<=2*Q+2); near.append(z3.And(T.TOUCH(T.level,A_,B_),l==T.level+1,z3.Or(z3.And(kid(a,A_),kid(b,B_)),z3.And(kid(a,B_),kid(b,A_)))))
        return Tree.pre_visit(T,a,b,l)+[("the cells' parents touch",z3.Or(*near))]
    def h_sample(T,kind):
        h0=Tree.h_sample(T,kind)
        def h(eng,st,a,inst):
            x,y,l=[toZ(eng.wrapu(st,v)) for v in a[1:4]]; eng.oblige(st,f"{kind} is called on cells whose parents touch",T.pre_visit(x,y,l)[-1][1],"pre"); return h0(eng,st,a,inst)
        return h
    def basic(T,E):
        E.C={AH+"touching":T.h_touching,AH+"firstCellOfLevel":T.h_first,AH+"numCellsInLevel":T.h_num,HT+"sampleTypeI":T.gen_pass(T.h_sample("sampleTypeI")),HT+"sampleTypeII":T.gen_pass(T.h_sample("sampleTypeII")),HT+"visitCellPair":T.gen_pass(T.h_visit)}
    def gen_pass(T,h):
        def g(eng,st,a,inst): T.h_same_gen(eng,st,a); return h(eng,st,a,inst)
        return g
def visit(c,only=None):
    """visitCellPair: all cases of equal/different cells, matching/swapped/other, last level or not"""
    m=c.load(htu(),hkeep); q=HT+"visitCellPair"; F=c.fn(m,q)
    for tag,same,mt,last in cases(only):
        E=Engine(m,name=q); st=State(); T=HTree(c,E,m,st); x,y,l,hi=setup(T,E,st,same,mt,last)
        E.templates=T.templates(); T.basic(E); T.measure=lambda lc: [("the level grows (termination)",z3.And(lc>l))]
        out=E.run_fn(F,[P(T.this,0),I(32,x,0,hi),I(32,y,0,hi),I(32,l,0,30),T.gen],st); c.cover(q,tag,[z3.BoolVal(bool(out))])
        for s,v in out:
            c.cover(q,tag+": a path to the end",s.pc)
            d=s.g["cnt"]-z3.Int("cnt0")
            for g,nm in zip(T.visited(x,y,l,d),("at most once","not if it is another pair","exactly once")): E.oblige(s,f"the pair is decided {nm} ({tag})",g,assume=False)
        c.discharge(E,dict(level=l,levels=T.levels,p=T.p))
def cases(only=None):
    for same in(True,False):
        for mt in("match","swapped","other"):
            if same and mt=="swapped": continue
            for last in(False,True):
                if only is not None and (same,mt,last) not in only: continue
                yield f"{'A==B' if same else 'A!=B'}, {mt}, {'last level' if last else 'inner level'}",same,mt,last
def setup(T,E,st,same,mt,last):
    l=T.level=z3.Int("level"); T.lev(st,l); T.chainfacts(st,l); T.chainfacts(st,z3.simplify(l+1))
    st.pc+=[l>=0,l<T.levels,(l==T.levels-1) if last else (l<T.levels-1)]; hi=(1<<31)-1 if last else (1<<30)-2
    if mt=="match": x,y=T.CU(l),(T.CU(l) if same else T.CV(l))
    elif mt=="swapped": x,y=T.CV(l),T.CU(l)
    else: x=z3.Int("cellA"); y=x if same else z3.Int("cellB")
    if mt=="match" and same: st.pc.append(T.CU(l)==T.CV(l))
    if not same: st.pc.append(z3.simplify(z3.Not(x==y)))
    if mt=="other": st.pc+=[z3.Not(T.match(x,y,l))]
    st.pc+=[g for _,g in T.pre_visit(x,y,l)]+[x>=0,y>=0,x<=hi,y<=hi]; T.parents=(x,y); return x,y,l,hi
# ---- the producer: visitCellPairCreateTasks stores calls visitCellPair(a,b,fpl)
def taskchain(T,l): return UF("TASKCHAIN",IS(),z3.BoolSort())(z3.simplify(toZ(l)))
def taskfacts(T,st,l):
    """TASKCHAIN(l): the pair's cells touch on all levels l..fpl-1"""
    l=z3.simplify(toZ(l)); st.pc.append(z3.Implies(z3.And(0<=l,l<T.fpl),taskchain(T,l)==z3.And(T.TOUCH(l,T.CU(l),T.CV(l)),z3.Or(z3.simplify(l+1)==T.fpl,taskchain(T,z3.simplify(l+1))))))
def task_inc(T,x,y,l): return z3.And(T.fpl<=T.p,T.match(x,y,l),taskchain(T,l))
def ntasks(T,x,y,l):
    """upper bound on the number of tasks stored for the pair (x,y) of level l: with d=fpl-l, 7*2^(d-1)-4 for a cell with itself, 4 for touching neighbours (8 on level 1, where they touch on both sides), none for others"""
    same=x==y; h=POW2(z3.simplify(T.fpl-l-1)); return z3.If(same,7*h-4,z3.If(T.TOUCH(l,x,y),z3.If(z3.And(l==1,T.fpl>2),8,4),0))
def taskcount(T,x,y,l,n):
    """bound for one call; at the top (level 0) the exact bound the generator allocates for"""
    return z3.And(n>=0,z3.Implies(l>=1,n<=ntasks(T,x,y,l)),z3.Implies(z3.And(l==0,T.fpl==2),n<=10),z3.Implies(z3.And(l==0,T.fpl>2),n<=7*POW2(z3.simplify(T.fpl-1))))
def countfacts(T,st,l):
    l=z3.simplify(toZ(l)); f=T.fpl
    for k in(f-l,f-l-1,f-l-2,f-1,f-2,l,l+1):
        k=z3.simplify(k); st.pc+=[z3.Implies(k>=0,POW2(k)>=1),z3.Implies(k>=1,POW2(k)==2*POW2(z3.simplify(k-1)))]
        for j in range(4): st.pc+=[z3.Implies(k==j,POW2(k)==(1<<j)),z3.Implies(k>=j,POW2(k)>=(1<<j))]
def touchdef(T,st,l,x,y):
    """C05: touching cells are equal or adjacent on the circle"""
    d=z3.If(x>y,x-y,y-x); st.pc.append(T.TOUCH(l,x,y)==z3.Or(d<=1,d==POW2(l)-1)); st.pc.append(T.FIRST(l)==POW2(l)-1)
def h_create(T,tasks):
    def h(eng,st,a,inst):
        x,y,l,f=[toZ(eng.wrapu(st,v)) for v in a[1:5]]; T.lev(st,l); taskfacts(T,st,l)
        for nm,g in T.pre_visit(x,y,l)+[("above the first parallel level",l<f),("same first parallel level",f==T.fpl)]: eng.oblige(st,"call of the task creation: "+nm,g,"pre")
        if not(isinstance(a[5],P) and a[5].r is tasks.r): raise Unsupported("another task list")
        for nm,g in T.measure(l): eng.oblige(st,"recursive call: "+nm,g,"measure")
        T.add(eng,st,"pend",task_inc(T,x,y,l)); touchdef(T,st,l,x,y); countfacts(T,st,l)
        n=z3.Int(eng.name("stored")); st.pc.append(taskcount(T,x,y,l,n)); st.g["stored"]=z3.simplify(st.g["stored"]+n); eng.note_write(("g","stored")); return UNDEF
    return h
def h_emplace(T,tasks):
    def h(eng,st,a,inst):
        if not(isinstance(a[0],P) and a[0].r is tasks.r): raise Unsupported("emplace_back on another vector")
        t=llvmc.Ty(); t.kind="int"; t.w=32; t.size=4
        if len(a)==2: v=[eng.load(st,eng.padd(a[1],k),t) for k in(0,4)]     # push_back(TaskDescription)
        else: v=[eng.load(st,p,t) if isinstance(p,P) else p for p in a[1:3]]
        x,y=[z3.simplify(toZ(eng.wrapu(st,k))) for k in v]
        for nm,g in T.pre_visit(x,y,T.fpl): eng.oblige(st,"stored task: "+nm,g,"pre")
        T.add(eng,st,"pend",z3.And(T.fpl<=T.p,T.match(x,y,T.fpl))); st.g["stored"]=z3.simplify(st.g["stored"]+1); eng.note_write(("g","stored")); return UNDEF
    return h
def create(c):
    m=c.load(htu(),hkeep); q=HT+"visitCellPairCreateTasks"; F=c.fn(m,q)
    for tag,same,mt,last in cases():
        if last: continue
        E=Engine(m,name=q); st=State(); T=HTree(c,E,m,st); T.fpl=z3.Int("fpl"); x,y,l,hi=setup(T,E,st,same,mt,False); T.lev(st,T.fpl); st.pc+=[l<T.fpl,T.fpl<T.levels,T.fpl<=30]; taskfacts(T,st,l); taskfacts(T,st,z3.simplify(l+1)); st.g["pend"]=z3.Int("pend0"); st.g["stored"]=z3.IntVal(0); countfacts(T,st,l); touchdef(T,st,l,x,y); st.pc+=[T.fpl>=2,z3.Or(x==y,l>0)]
        tv=P(E.new_obj(st,"tasks"),0); T.basic(E); T.measure=lambda lc: [("the level grows (termination)",z3.And(lc>l))]
        E.C.update({HT+"visitCellPairCreateTasks":h_create(T,tv),"std::vector::emplace_back":h_emplace(T,tv),"std::vector::push_back":h_emplace(T,tv)})
        out=E.run_fn(F,[P(T.this,0),I(32,x,0,hi),I(32,y,0,hi),I(32,l,0,30),I(32,T.fpl,0,30),tv],st); c.cover(q,tag,[z3.BoolVal(bool(out))])
        for s,v in out:
            c.cover(q,tag+": a path to the end",s.pc)
            E.oblige(s,f"the pair's call is stored exactly if it lies below this cell pair ({tag})",s.g["pend"]-z3.Int("pend0")==z3.If(task_inc(T,x,y,l),1,0),assume=False)
            E.oblige(s,f"not more calls are stored than allocated for ({tag})",taskcount(T,x,y,l,s.g["stored"]),assume=False)
            E.oblige(s,f"nothing is sampled while tasks are created ({tag})",s.g["cnt"]==z3.Int("cnt0"),assume=False)
        c.discharge(E,dict(level=l,levels=T.levels,p=T.p,fpl=T.fpl))
# ---- the workers: visitCellPairSample takes every num_threads-th unit of work of the levels above fpl
class Turns(HTree):
    """variant: does an entry of the type I list that is skipped because of its order take a turn"""
    def __init__(T,c,E,m,st,variant):
        super().__init__(c,E,m,st); T.variant=variant; T.fpl=z3.Int("fpl"); T.nt=z3.Int("num_threads"); T.SH=UF("SH",IS(),IS()); T.PT=UF("turns_before",IS(),IS(),z3.BoolSort(),IS()); T.PL=UF("entries_before",IS(),IS()); T.TURNS=UF("turns",IS(),IS(),IS(),IS()); T.W=UF("turn_of_pair",IS(),IS(),IS(),IS()); T.DEC=UF("decides_pair",IS(),IS(),IS(),z3.BoolSort())
        st.pc+=[T.nt>=1,T.nt<(1<<20),T.fpl>=1,T.fpl<=31]; st.g["U"]=z3.Int("U0"); st.pc+=[st.g["U"]>=0]
    def sh(T,st,k):
        """SH(k) with the instances of its definition"""
        k=z3.simplify(toZ(k))
        for x in(k,z3.simplify(k-1)):
            st.pc+=[T.SH(z3.simplify(x+1))==z3.If(T.SH(x)+1==T.nt,0,T.SH(x)+1),0<=T.SH(x),T.SH(x)<T.nt]
        return T.SH(k)
    def ptf(T,st,idx,tri,k):
        """turns taken by the first k entries of list idx when only entries with first<=second take one"""
        f,s=z3.Select(T.LF(idx),k),z3.Select(T.LS(idx),k); tb=z3.BoolVal(tri) if isinstance(tri,bool) else tri
        st.pc+=[T.PT(idx,z3.IntVal(0),tb)==0,T.PT(idx,z3.simplify(k+1),tb)==T.PT(idx,k,tb)+z3.If(z3.Or(z3.Not(tb),f<=s),1,0)]
        st.pc+=[z3.Implies(k>=0,T.PT(idx,k,tb)>=0)]
        return T.PT(idx,k,tb)
    def h_sampleme(T,eng,st,a,inst):
        x,y,l,f,n,sft=[toZ(eng.wraps(st,v) if k>=4 else eng.wrapu(st,v)) for k,v in enumerate(a[1:7])]; T.lev(st,l); T.facts(st,l)
        for nm,g in T.pre_visit(x,y,l)+[("above the first parallel level",l<T.fpl),("same first parallel level",f==T.fpl),("same number of workers",n==T.nt)]: eng.oblige(st,"recursive call: "+nm,g,"pre")
        for nm,g in T.measure(l): eng.oblige(st,"recursive call: "+nm,g,"measure")
        T.h_same_gen(eng,st,a); U=T.turn(eng,st,sft)
        if U is None: eng.oblige(st,"the turn handed on continues the count",z3.BoolVal(False),"pre"); U=st.g["U"]
        d=z3.simplify(T.dec(x,y,l)); w=z3.simplify(U+T.W(l,x,y)); st.pc+=[T.TURNS(l,x,y)>=0,z3.Implies(d,z3.And(0<=T.W(l,x,y),T.W(l,x,y)<T.TURNS(l,x,y)))]
        st.g["cnt"]=z3.simplify(st.g["cnt"]+z3.If(z3.And(d,T.sh(st,w)+1==T.nt),1,0)); st.g["w"]=z3.simplify(st.g["w"]+z3.If(d,w-z3.Int("U0"),0)); st.g["dec"]=z3.simplify(st.g["dec"]+z3.If(d,1,0))
        U2=z3.simplify(U+T.TURNS(l,x,y)); st.g["U"]=U2
        for k in("cnt","w","dec","U"): eng.note_write(("g",k))
        return I(32,T.sh(st,U2),0,(1<<20))
    def dec(T,x,y,l):
        """visiting (x,y) down to the levels above fpl decides the pair"""
        l=z3.simplify(l); return z3.And(l<=T.p,T.match(x,y,l),T.reach(l))
    def reach(T,l): return UF("REACH",IS(),z3.BoolSort())(z3.simplify(toZ(l)))
    def facts(T,st,l):
        """REACH(l): going down from level l the pair is decided on a level above fpl: its comparison level comes first, or its cells stop touching"""
        for x in(z3.simplify(toZ(l)),z3.simplify(toZ(l)+1)):
            t=T.TOUCH(x,T.CU(x),T.CV(x)); n=z3.simplify(x+1)
            st.pc.append(z3.Implies(z3.And(0<=x,x<=T.p,x<T.fpl),T.reach(x)==z3.Or(z3.Not(t),x==T.p,z3.And(n<T.fpl,T.reach(n)))))
    def turn(T,eng,st,sft):
        """the number of turns taken so far, from the value of thread_shift"""
        cand=[]; l=T.level; U=st.g["U"]; T.mono(st); cand.append(U+T.PL(T.levels)-T.PL(l))
        for idx in[l]+[r.key for r in T.lists.values()]:
            n=T.LLEN(idx)
            for tri in(True,False): cand.append(U+T.PT(idx,n,z3.BoolVal(tri)))
            cand.append(U+n)
        cand=[U]+cand
        for u in cand:
            u=z3.simplify(u)
            if eng.provable(st,sft==T.sh(st,u)): return u
        return None
    def tpl(T,L):
        base=[]; reg=None; l=T.level; same=T.same
        for p_,v in L.phis(P):
            if v.r is not None and v.r.fam=="list": reg=v.r
        out=[("nothing sampled",lambda M:M.st.g["cnt"]==M.entry.g["cnt"])]
        shs=[p_.id for p_,v in L.phis(I) if v.w==32]
        U=lambda M:M.entry.g["U"]
        def two(f,name):
            for pid in shs: out.append((name+" (turn)",lambda M,pid=pid:toZ(M.st.env[pid].t)==T.sh(M.st,f(M)[0])))
            out.append((name+" (decisions)",lambda M:M.st.g["cnt"]==M.entry.g["cnt"]+z3.If(z3.And(f(M)[1],T.sh(M.st,f(M)[2])+1==T.nt),1,0)))
        for wh,idx in([("",reg.key)] if reg is not None else T.curlevels(L)):
            if reg is None: out.append((f"not more iterations than entries{wh}",lambda M,idx=idx: (T.listfacts(M.st,idx),M.K<=T.LLEN(idx))[1]))
            for tri in(True,False):
                for nm,k in(("k1",T.k1),("k2",T.k2),("min",z3.If(T.iu<=T.iv,T.k1,T.k2)),("max",z3.If(T.iu>=T.iv,T.k1,T.k2))):
                    def f(M,tri=tri,k=k,idx=idx):
                        T.ptf(M.st,idx,tri,M.K); T.ptf(M.st,idx,tri,k); b=T.base(M)
                        return b+T.PT(idx,M.K,z3.BoolVal(tri)),z3.And(idx==T.p,k<M.K),b+T.PT(idx,k,z3.BoolVal(tri))
                    two(f,f"entries of the list{wh}, {nm}, {'ordered ones only' if tri else 'all'}")
        # levels: every entry of the lists of these levels takes a turn
        for nm,k in(("k1",T.k1),("k2",T.k2)):
            def f(M,k=k):
                x=z3.simplify(l+M.K)
                for z_ in(x,z3.simplify(x-1),T.p): M.st.pc+=[T.PT(z_,z3.IntVal(0),z3.BoolVal(False))==0,T.PL(z3.simplify(z_+1))==T.PL(z_)+T.PT(z_,T.LLEN(z_),z3.BoolVal(False)),T.PT(z_,T.LLEN(z_),z3.BoolVal(False))>=0]
                T.ptf(M.st,T.p,False,k)
                return U(M)+T.PL(x)-T.PL(l),z3.And(l<=T.p,T.p<x),U(M)+T.PL(T.p)-T.PL(l)+T.PT(T.p,k,z3.BoolVal(False))
            two(f,f"levels, {nm}")
        for i_,get in enumerate(L.ints()): out.append((f"level variable {i_} follows the iterations",lambda M,get=get:toZ(get(M.st).t)==l+M.K)); out.append((f"level variable {i_} in range",lambda M,get=get:z3.And(toZ(get(M.st).t)>=l,toZ(get(M.st).t)<=T.levels)))
        return out
    def mono(T,st):
        """prefix sums grow: instances for the entries and levels of the pair"""
        if "mono" in st.tags: return
        st.tags["mono"]=1; p=T.p; f_=z3.BoolVal(False)
        for k in(T.k1,T.k2): T.entry(T.E,st,p,k)
        st.pc+=[T.LLEN(p)>=0,T.k1<T.LLEN(p),T.k2<T.LLEN(p),T.PL(z3.simplify(p+1))==T.PL(p)+T.PT(p,T.LLEN(p),f_),z3.Implies(T.level<=p,T.PL(T.level)<=T.PL(p)),T.PL(z3.simplify(p+1))<=T.PL(T.levels),T.PL(T.level)<=T.PL(T.levels)]
        for k in(T.k1,T.k2):
            for tr in(True,False): T.ptf(st,p,tr,k); st.pc+=[T.PT(p,z3.simplify(k+1),z3.BoolVal(tr))<=T.PT(p,T.LLEN(p),z3.BoolVal(tr))]
        for tr in(True,False): st.pc+=[T.PT(T.level,T.LLEN(T.level),z3.BoolVal(tr))>=0]
    def base(T,M):
        """turns taken before this list: none since the function's start, or those of the levels already handled"""
        U=M.entry.g["U"]
        if M.outer:
            K=M.outer[-1][2]; return U+T.PL(z3.simplify(T.level+K))-T.PL(T.level)
        return U
    def turnless(T,t):
        names=set()
        from contracts.gdraw import fv
        return {str(v.decl().name()) for v in subterms(t)}
def subterms(t,seen=None):
    seen=set() if seen is None else seen
    if t.get_id() in seen: return []
    seen.add(t.get_id()); r=[t]
    for k in t.children(): r+=subterms(k,seen)
    return r
def share(c,only=None):
    """visitCellPairSample: for a worker whose turn count starts at U0, the pair is sampled exactly if turn U0+w is the worker's, where w does not depend on the worker"""
    for variant in(0,):
        m=c.load(htu(),hkeep); q=HT+"visitCellPairSample"; F=c.fn(m,q)
        for tag,same,mt,last in cases(only):
            E=Engine(m,name=q); st=State(); T=Turns(c,E,m,st,variant); T.same=same; x,y,l,hi=setup(T,E,st,same,mt,last); T.lev(st,T.fpl); st.pc+=[l<T.fpl]; T.facts(st,l); U0=st.g["U"]; s0=T.sh(st,U0); st.g.update(w=z3.IntVal(0),dec=z3.IntVal(0))
            E.templates=T.tpl; T.basic(E); E.C[HT+"visitCellPairSample"]=T.h_sampleme; T.measure=lambda lc: [("the level grows (termination)",z3.And(lc>l))]
            out=E.run_fn(F,[P(T.this,0),I(32,x,0,hi),I(32,y,0,hi),I(32,l,0,30),I(32,T.fpl,0,31),I(32,T.nt,1,1<<20),I(32,s0,0,1<<20),T.gen],st); c.cover(q,tag,[z3.BoolVal(bool(out))])
            for s,v in out: c.cover(q,tag+": a path to the end",s.pc); T.close(E,s,v,x,y,l,tag)
            c.discharge(E,dict(level=l,levels=T.levels,p=T.p,fpl=T.fpl,num_threads=T.nt))
def close(T,E,s,v,x,y,l,tag):
    U=T.turn(E,s,toZ(E.wraps(s,v))); E.oblige(s,f"the returned turn continues the count ({tag})",z3.BoolVal(U is not None),assume=False)
    if U is None: return
    tri=z3.BoolVal(T.same); t=T.TOUCH(l,x,y); d=T.dec(x,y,l); p=T.p; U0=z3.Int("U0")
    # the pair's own turn, relative to the start of this visit
    cand=[]
    for k in(T.k1,T.k2,z3.If(T.iu<=T.iv,T.k1,T.k2)):
        for tr in(True,False): cand.append(T.PT(l,k,z3.BoolVal(tr)))
        cand.append(T.PL(p)-T.PL(l)+T.PT(p,k,z3.BoolVal(False)))
    got=s.g["cnt"]-z3.Int("cnt0")
    names={str(k.decl().name()) for k in subterms(U)}|{str(k.decl().name()) for k in subterms(s.g["w"])}
    E.oblige(s,f"the number of turns does not depend on the worker ({tag})",z3.BoolVal(not any(n=="SH" or n.startswith("num_threads") for n in names)),assume=False)
    pick=[z3.IntVal(0)]+cand
    def goal(w): return z3.And(z3.Implies(z3.Not(d),got==0),z3.Implies(d,z3.And(got==z3.If(T.sh(s,z3.simplify(U0+w))+1==T.nt,1,0),0<=w,w<U-U0)))
    for w0 in[z3.IntVal(0)]+cand:
        w=z3.If(s.g["dec"]==1,s.g["w"],w0)
        if E.provable(s,goal(w)): break
    else: w=z3.If(s.g["dec"]==1,s.g["w"],cand[0])
    E.oblige(s,f"the pair is sampled exactly by the worker that has its turn, the same turn for all workers ({tag})",goal(w),assume=False)
Turns.close=close

def generate(c):
    """generate: one thread; or a team (of any size up to the maximum) of workers and one producer, run once for an arbitrary thread"""
    probe=[]; n=len(c.results)
    generate_(c,probe,None); del c.results[n:]
    generate_(c,None,probe[0] if probe else None)
def generate_(c,probe,fplterm):
    m=c.load(htu(),hkeep); q=HT+"generate"; F=c.fn(m,q)
    E=Engine(m,name=q); st=State(); T=HTree(c,E,m,st); z=z3.IntVal(0); T.level=z; T.lev(st,z); T.chainfacts(st,z); T.parents=(); T.fpl=z3.Int("fpl")
    mx,team,tid,seed=z3.Ints("omp_max omp_team omp_tid seed"); st.pc+=[mx>=1,mx<=(1<<20),seed>=-(1<<31),seed<(1<<31)]
    st.g.update(pend=z,stored=z,sampled=z,ready=z,told=z,locked=z,got=z3.IntVal(-1),run=z,fetches=z)
    rt.omp(E,mx); rt.random(E); noop=lambda e,s,a,i:UNDEF; szg=const(m,"size_gen"); gl=z3.Int("gens_len"); ntk=z3.Int("tasks_len"); k0=z3.Int("k0"); TA,TB=UF("task_a",IS(),IS()),UF("task_b",IS(),IS())
    def mfacts(eng,s,name,xs,r):
        if name=="log2": s.pc+=[z3.Implies(xs[0]>=(1<<k),r>=k) for k in range(0,25)]+[z3.Implies(xs[0]<=(1<<k),r<=k) for k in range(0,25)]
    rt.libm(E,mfacts)
    def num_threads(eng,s,a,i): s.pc+=[team>=1,team<=mx]; return I(32,team,1,1<<20)
    def thread(eng,s,a,i): s.pc+=[tid>=0,tid<team,team>=1,team<=mx]; return I(32,tid,0,(1<<20)-1)
    def fork(eng,s,a,i):
        g=eng.new_obj(s,"gtid"); s.pc+=[tid>=0,tid<team,team>=1,team<=mx]; s.mem[g.id][(0,4)]=I(32,tid,0,(1<<20)-1); r=[]
        fl=[p_ for p_ in a[3:] if isinstance(p_,P) and p_.r is not None and p_.r.kind=="obj" and set(s.mem.get(p_.r.id,{}))=={(0,1)}]
        if len(fl)!=1: raise Unsupported(f"{len(fl)} shared flags")
        s.tags["flagp"]=fl[0]; eng.oblige(s,"the flag is not set before the threads start",fval(eng,s)==0,"post")
        for s2,v in eng.run_fn(a[2].f,[P(g,0),P(g,0)]+a[3:],s): endthread(eng,s2); r.append((s2,UNDEF))
        return r
    def setg(eng,s,**kw):
        for k,v in kw.items(): s.g[k]=v if isinstance(v,z3.ExprRef) else z3.IntVal(v); eng.note_write(("g",k))
    def is_gen(eng,s,p):
        if not isinstance(p,P) or p.r is not T.gens: raise Unsupported("another random number generator")
        ix,f=eng.split_off(s,T.gens,p.o,0); ix=toZ(ix); eng.oblige(s,"the random number generator used exists",z3.And(0<=ix,ix<gl),"bounds"); return ix
    def h_prngs(eng,s,a,i):
        n=toZ(eng.wrapu(s,a[2])); s.pc+=[gl==n]; seeded(eng,s,toZ(eng.wrapu(s,a[3])))
        for o,v in((0,P(T.gens,0)),(8,P(T.gens,z3.simplify(szg*n))),(16,P(T.gens,z3.simplify(szg*n)))): eng.store(s,eng.padd(a[0],o),v,_ptr())
        return UNDEF
    def seeded(eng,s,sd):
        vs={str(v.decl().name()) for v in subterms(sd)}; s2=z3.Int("seed2")
        eng.oblige(s,"for a non-negative seed the random number generator's seed depends on nothing but that seed",z3.Or(seed<0,z3.BoolVal(not any(x.startswith(("entropy","omp_gtid","omp_tid")) for x in vs))),"post")
        eng.oblige(s,"changing the seed changes the random number generator's seed",z3.Implies(z3.And(seed>=0,s2>=0,s2!=seed,s2<(1<<31)),z3.substitute(sd,(seed,s2))!=sd),"post",assume=False)
    def h_master(eng,s,a,i):
        if len(a)<2: seeded(eng,s,z3.IntVal(5489))
        else: seeded(eng,s,toZ(eng.wrapu(s,a[1])))
        return UNDEF
    def h_vec(eng,s,a,i):
        if len(a)!=1: raise Unsupported("vector constructor")
        for o in(0,8,16): eng.store(s,eng.padd(a[0],o),P(None,0),_ptr())
        s.tags["tasks"]=a[0]; return UNDEF
    def entry(f):
        def h(eng,s,k,v):
            k=toZ(k); s.pc+=[g for _,g in T.pre_visit(TA(k),TB(k),T.fpl)]+[z3.And(T.fpl<=T.p,T.match(TA(k),TB(k),T.fpl))==z3.And(s.g["pend"]==1,k==k0),(TA if f==0 else TB)(k)==(toZ(v.t) if isinstance(v,I) else v)]
        return h
    T.tasks=E.new_arr(st,"tasks",8,{0:("int",32),4:("int",32)},ntk); T.tasks.readonly=True; T.tasks.hooks[0]=[entry(0)]; T.tasks.hooks[4]=[entry(4)]
    def publish(eng,s):
        """the task list as the producer left it"""
        tv=s.tags["tasks"]; cond=T.fpl<T.levels; s.pc+=[ntk>=0,ntk<(1<<31)-1]; eng.store(s,tv,P(T.tasks,0),_ptr()); eng.store(s,eng.padd(tv,8),P(T.tasks,z3.simplify(8*ntk)),_ptr())
    def h_createtop(eng,s,a,i):
        x,y,l,f=[toZ(eng.wrapu(s,v)) for v in a[1:5]]; s.pc.append(T.fpl==f) if False else None
        eng.oblige(s,"tasks are created from the root down to the first parallel level",z3.And(x==0,y==0,l==0,f==T.fpl),"pre"); eng.oblige(s,"tasks are created for a level that exists",z3.And(f<T.levels,f>=2,f<=30),"pre"); eng.oblige(s,"tasks are created once",s.g["stored"]==0,"post")
        if not(isinstance(a[5],P) and a[5].r is s.tags["tasks"].r): raise Unsupported("another task list")
        taskfacts(T,s,z); countfacts(T,s,z); n=z3.Int("tasks_len"); s.pc+=[taskcount(T,z,z,z,ntk),z3.Implies(s.g["pend"]==1,z3.And(0<=k0,k0<ntk))]; publish(eng,s); setg(eng,s,ready=1); return UNDEF
    def h_partition(eng,s,a,i):
        b,e_=a[0],a[1]; eng.oblige(s,"only the order of the whole task list is changed",z3.And(z3.BoolVal(b.r is T.tasks and e_.r is T.tasks),toZ(b.o)==0,toZ(e_.o)==8*ntk) if isinstance(b,P) and isinstance(e_,P) else z3.BoolVal(False),"pre"); return P(T.tasks,0)
    def fval(eng,s):
        t=llvmc.Ty(); t.kind="int"; t.w=8; t.size=1; return toZ(eng.load(s,s.tags["flagp"],t).t)
    def lock(eng,s,a,i): eng.oblige(s,"the mutex is not locked twice",s.g["locked"]==0,"pre"); setg(eng,s,locked=1); s.tags["flagthen"]=fval(eng,s); return UNDEF
    def unlock(eng,s,a,i):
        if eng.provable(s,z3.And(s.tags["flagthen"]==0,fval(eng,s)==1)): s.tags["setlocked"]=True
        setg(eng,s,locked=0); return UNDEF
    def h_notify(eng,s,a,i):
        ok=s.tags.get("setlocked") or (eng.provable(s,s.g["locked"]==1) and eng.provable(s,z3.And(s.tags["flagthen"]==0,fval(eng,s)==1)))
        eng.oblige(s,"the flag is set, under the lock, before the waiting threads are notified",z3.BoolVal(bool(ok)),"post"); eng.oblige(s,"tasks are announced only when they are complete",z3.Or(s.g["ready"]==1,T.fpl>=T.levels),"post"); setg(eng,s,told=1); return UNDEF
    prod=tid+1==team
    def h_wait(eng,s,a,i):
        eng.oblige(s,"waiting needs the lock",s.g["locked"]==1,"pre")
        if len(a)<3 or not isinstance(a[2],P): raise Unsupported("wait without a predicate on the flag")
        p=a[2]; t=llvmc.Ty(); t.kind="int"; t.w=8; t.size=1
        eng.oblige(s,"the thread that creates the tasks has announced them before it waits itself (otherwise it waits forever)",z3.Implies(prod,s.g["told"]==1),"post")
        eng.oblige(s,"the flag waited for is the one the producer sets",z3.BoolVal(p.r is s.tags["flagp"].r),"post"); eng.store(s,p,I(8,1),t)
        if eng.provable(s,z3.Not(prod)) or eng.provable(s,s.g["ready"]==0):
            s2=s; other=z3.Int(eng.name("x")); taskfacts(T,s,z); countfacts(T,s,z); s.pc+=[z3.Implies(T.fpl<T.levels,z3.And(taskcount(T,z,z,z,ntk),z3.Implies(s.g["pend"]==1,z3.And(0<=k0,k0<ntk)))),z3.Implies(T.fpl>=T.levels,ntk==0)]; publish(eng,s)
        setg(eng,s,ready=1); return UNDEF
    def h_sampletop(eng,s,a,i):
        x,y,l,f,n,sft=[toZ(eng.wraps(s,v) if k>=4 else eng.wrapu(s,v)) for k,v in enumerate(a[1:7])]; ns=z3.If(team>1,team-1,1)
        if probe is not None and not probe: probe.append(f)
        eng.oblige(s,"a worker starts at the root, with the first parallel level",z3.And(x==0,y==0,l==0,f==T.fpl),"pre"); eng.oblige(s,"every thread but the producer is a worker (a single thread is both)",n==ns,"pre"); eng.oblige(s,"worker t starts with turn t",z3.And(sft==tid,tid<ns),"pre"); eng.oblige(s,"a worker samples its share once",s.g["sampled"]==0,"post"); setg(eng,s,sampled=1)
        ix=is_gen(eng,s,a[7]); s.g["genW"]=ix; eng.oblige(s,"a worker uses its own random number generator",ix==tid,"post"); return I(32,z3.Int(eng.name("turn")),0,1<<20)
    def atomic(eng,s,n,ops):
        if not(isinstance(ops[0],P)) or ops[0].r is None or ops[0].r.kind!="obj": raise Unsupported("atomic operation")
        if not isinstance(ops[1],I) or conc(toZ(ops[1].t))!=1: eng.oblige(s,"task numbers are fetched one by one",z3.BoolVal(False),"post")
        eng.oblige(s,"the task list is only read after it was announced or by the thread that made it",z3.Or(s.g["ready"]==1,z3.And(prod,T.fpl>=T.levels)),"post")
        eng.oblige(s,"a worker samples its share before taking tasks",z3.Implies(tid<z3.If(team>1,team-1,1),s.g["sampled"]==1),"post")
        finished(eng,s); i=z3.Int(eng.name("i")); s.pc+=[i>=0,i<(1<<31)-(1<<22)]; setg(eng,s,got=i,run=0,fetches=1); return I(32,i,0,(1<<31)-1)
    def finished(eng,s): eng.oblige(s,"the task with the number fetched was carried out exactly once",z3.Implies(z3.And(s.g["fetches"]==1,s.g["got"]<ntasknow(s)),s.g["run"]==1),"post")
    def ntasknow(s): return z3.If(T.fpl<T.levels,ntk,0)
    def h_visittask(eng,s,a,i):
        x,y,l=[toZ(eng.wrapu(s,v)) for v in a[1:4]]
        if s.tags.get("single") or a[4].r is not T.gens:
            eng.oblige(s,"the single thread visits the root",z3.And(x==0,y==0,l==0),"pre"); eng.oblige(s,"only without other threads",mx==1,"pre"); d=z3.Int(eng.name("d")); s.pc+=T.visited(z,z,z,d); s.g["cnt"]=z3.simplify(s.g["cnt"]+d); eng.note_write(("g","cnt")); return UNDEF
        g=s.g["got"]; s.pc+=[g_ for _,g_ in T.pre_visit(TA(g),TB(g),T.fpl)]
        eng.oblige(s,"the task carried out is the one with the number fetched, on the first parallel level",z3.And(g<ntasknow(s),x==TA(g),y==TB(g),l==T.fpl),"pre"); ix=is_gen(eng,s,a[4])
        eng.oblige(s,"a task uses the random number generator of its number, which no worker uses",ix==mx-1+g,"post"); eng.oblige(s,"the task with the number fetched was carried out exactly once",s.g["run"]==0,"post")
        setg(eng,s,run=1); return UNDEF
    def endthread(eng,s):
        finished(eng,s); eng.oblige(s,"a thread stops only after it fetched a number behind the last task",z3.And(s.g["fetches"]==1,s.g["got"]>=ntasknow(s)),"post")
        eng.oblige(s,"every worker sampled its share",z3.Implies(tid<z3.If(team>1,team-1,1),s.g["sampled"]==1),"post"); eng.oblige(s,"the producer announced the tasks, so that nobody waits forever",z3.Implies(prod,s.g["told"]==1),"post")
        eng.oblige(s,"the lock is released",s.g["locked"]==0,"post")
    def wflag(eng,s,idx,val): pass
    E.atomic=atomic
    E.C.update({"omp_get_num_threads":num_threads,"omp_get_thread_num":thread,"__kmpc_fork_call":fork,"std::mersenne_twister_engine::mersenne_twister_engine":h_master,"std::mersenne_twister_engine::seed":h_master,HT+"initialize_prngs":h_prngs,"std::vector::vector":h_vec,"std::vector::~vector":noop,"std::vector::reserve":noop,"std::mutex::mutex":noop,"std::condition_variable::condition_variable":noop,"std::condition_variable::~condition_variable":noop,
        "std::lock_guard::lock_guard":lock,"std::lock_guard::~lock_guard":unlock,"std::unique_lock::unique_lock":lock,"std::unique_lock::~unique_lock":unlock,"std::condition_variable::notify_all":h_notify,"std::condition_variable::wait":h_wait,"std::partition":h_partition,
        HT+"visitCellPairCreateTasks":h_createtop,HT+"visitCellPairSample":h_sampletop,HT+"visitCellPair":h_visittask,"strlen":lambda e,s,a,i:I(64,1),"std::__ostream_insert":lambda e,s,a,i:a[0],"std::ostream::operator<<":lambda e,s,a,i:a[0],"ScopedTimer::ScopedTimer":noop,"ScopedTimer::~ScopedTimer":noop,"hypergirgs::ScopedTimer::ScopedTimer":noop,"hypergirgs::ScopedTimer::~ScopedTimer":noop,"std::__cxx11::basic_string::basic_string":noop,"std::__cxx11::basic_string::~basic_string":noop,"std::basic_string::basic_string":noop,"std::basic_string::~basic_string":noop})
    def tpl(L):
        g=lambda M,k:M.st.g[k]
        pend=[]
        for pid in [p_.id for p_,v in L.phis(I)]:   # loops that fetch the next number at their end: the number at the head is still to be carried out
            pend.append((f"the number fetched is still to be carried out ({pid})",lambda M,pid=pid:z3.And(g(M,"fetches")==1,g(M,"run")==0,toZ(M.eng.wraps(M.st,M.st.env[pid]))==g(M,"got"),g(M,"got")>=0,g(M,"got")<(1<<31)-(1<<22))))
        return pend+[("fetched tasks were carried out",lambda M:z3.Implies(z3.And(g(M,"fetches")==1,g(M,"got")<ntasknow(M.st)),g(M,"run")==1)),("fetch state",lambda M:z3.And(g(M,"fetches")>=0,g(M,"fetches")<=1,g(M,"run")>=0,g(M,"run")<=1))]
    E.templates=tpl
    # the first parallel level is whatever the code computes (found in a first run), as long as it is the same for all threads
    if fplterm is not None: st.pc+=[T.fpl==fplterm]; E.oblige(st,"the first parallel level is the same for all threads",z3.BoolVal(not any(str(v.decl().name()).startswith(("omp_tid","omp_gtid")) for v in subterms(fplterm))),"post")
    countfacts(T,st,z)
    st.pc+=[z3.Or(st.g["pend"]==0,st.g["pend"]==1)]; st.g["pend"]=z3.If(z3.And(T.fpl<=T.p,taskchain(T,z)),1,0); T.lev(st,T.fpl)
    out=E.run_fn(F,[P(T.this,0),I(32,seed,-(1<<31),(1<<31)-1)],st); c.cover(q,"all",[z3.BoolVal(bool(out))])
    for s,v in out:
        c.cover(q,"a path to the end",s.pc)
        d=s.g["cnt"]-z3.Int("cnt0"); single=E.provable(s,mx==1)
        if single:
            for g,nm in zip(T.visited(z,z,z,d),("at most once","not if it is another pair","exactly once")): E.oblige(s,f"one thread: over the whole run the pair is decided {nm}",g,assume=False)
        else: E.oblige(s,"several threads: everything is left to the workers and their tasks",d==0,assume=False)
    if probe is None: c.discharge(E,dict(threads=mx,team=team,tid=tid,levels=T.levels,p=T.p,fpl=T.fpl))
def _ptr():
    t=llvmc.Ty(); t.kind="ptr"; t.size=8; t.w=64; return t
def lemmas(c):
    """from the contracts of one worker, one task and the task list to the whole run"""
    t,t1,t2,U,nt,q1,q2,r,s,k,q_=z3.Ints("t t1 t2 U nt q1 q2 r s k q")
    c.lemma("lemma","induction: after k turns worker t has thread_shift (t+k) mod num_threads",[nt>=1,s==t+k-nt*q_,0<=s,s<nt],z3.If(s+1==nt,t+(k+1)-nt*(q_+1)==0,z3.And(s+1==t+(k+1)-nt*q_,s+1<nt)))
    c.lemma("lemma","a turn is taken by at most one worker",[nt>=1,0<=t1,t1<nt,0<=t2,t2<nt,t1+U-nt*q1==nt-1,t2+U-nt*q2==nt-1,z3.Implies(q1-q2>=1,nt*(q1-q2)>=nt),z3.Implies(q2-q1>=1,nt*(q2-q1)>=nt),nt*(q1-q2)==nt*q1-nt*q2,nt*(q2-q1)==nt*q2-nt*q1],t1==t2)
    c.lemma("lemma","a turn is taken by some worker",[nt>=1,U==nt*q_+r,0<=r,r<nt,t==nt-1-r],z3.And(0<=t,t<nt,t+U-nt*q_==nt-1))
    l,p,f=z3.Ints("l p f"); R1,R0,C1,C0,TO=z3.Bools("R1 R0 C1 C0 TO")
    # R(l): decided above fpl; C(l): cells touch on l..fpl-1
    defR=lambda Rl,Rn:z3.Implies(z3.And(l<=p,l<f),Rl==z3.Or(z3.Not(TO),l==p,z3.And(l+1<f,Rn))); defC=lambda Cl,Cn:z3.Implies(l<f,Cl==z3.And(TO,z3.Or(l+1==f,Cn)))
    c.lemma("lemma","a pair is decided either by the workers or by a task, never by both (induction over the levels above fpl)",[0<=l,l<=p,l<f,defR(R0,R1),defC(C0,C1),z3.Implies(z3.And(l+1<=p,l+1<f),R1==z3.Not(z3.And(f<=p,C1)))],R0==z3.Not(z3.And(f<=p,C0)))
