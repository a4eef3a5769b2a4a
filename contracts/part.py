"""The point index of both generators: buildPartition (classification, prefix sums, repair of empty cells), the layers' access functions.

ID(k): the vertex at place k of the sorted array.  LB(c): the number of places whose cell number is below c (the array is
sorted, so they are the first places).  FC(l): first cell number of layer l."""
from contracts.htree import *
from contracts.htree import _ptr
from contracts.isort import mulhook,MUL
MAXT=1<<17
KEY=r"(buildPartition\(.*?\)(?: const)?::(?:\{lambda\([^()]*\)#\d+\}|\$_\d+))"
def keyfn(d): return bool(re.search(KEY+r"::operator\(\)(<[^()]*>)?\([^(),]*(Node|Point)[^(),]*\)",d))
def gkeep(n,d): return keepfn(n,d) or sym.base_name(d)=="girgs::Node::Node" or keyfn(d)
HPTU='''#include <new>
#include <vector>
#include <string>
#include <sstream>
#include <limits>
#include <cassert>
#include <algorithm>
#include <iostream>
#include <random>
#include <chrono>
#include <memory>
#include <functional>
#include <utility>
#define private public
#define protected public
#include "%s/source/hypergirgs/source/RadiusLayer.cpp"
#undef private
#undef protected
namespace hg=hypergirgs;
int (hg::RadiusLayer::*force_pic)(unsigned,unsigned) const=&hg::RadiusLayer::pointsInCell;
const hg::Point& (hg::RadiusLayer::*force_kth)(unsigned,unsigned,int) const=&hg::RadiusLayer::kthPoint;
std::pair<const hg::Point*,const hg::Point*> (hg::RadiusLayer::*force_it)(unsigned,unsigned) const=&hg::RadiusLayer::cellIterators;
extern const unsigned long verif_size_point=sizeof(hg::Point);
extern const unsigned long verif_size_layer=sizeof(hg::RadiusLayer);
'''
LF=("m_r_min","m_r_max","m_target_level","m_base","m_prefix_sums")
def hptu(): return HPTU%REPO+"".join(f"extern const unsigned long verif_point_{f}=__builtin_offsetof(hg::Point,{f});\n" for f in("id","cell_id","invsinh_r","coth_r","cos_phi","sin_phi"))+"".join(f"extern const unsigned long verif_layer_{f}=__builtin_offsetof(hg::RadiusLayer,{f});\n" for f in LF)
def hpkeep(n,d): return hkeep(n,d) or keyfn(d)
def GF(D): return "".join(f"extern const unsigned long verif_layer_{f}=__builtin_offsetof(girgs::WeightLayer<{D}>,{f});\n" for f in LF[2:])
def gtu(D): return tu(D)+GF(D)+f"int (girgs::WeightLayer<{D}>::*force_pic)(unsigned,unsigned) const=&girgs::WeightLayer<{D}>::pointsInCell;\nconst girgs::Node<{D}>& (girgs::WeightLayer<{D}>::*force_kth)(unsigned,unsigned,int) const=&girgs::WeightLayer<{D}>::kthPoint;\n"
def bn(k): return UF(k,IS(),IS())
Q=Schema.Q
class Part:
    """which: g or h"""
    def __init__(T,c,which,D=1,tracked=True):
        T.c=c; T.w=which; T.D=D; g=which=="g"; m=T.m=c.load(gtu(D),gkeep) if g else c.load(hptu(),hpkeep); T.NS="girgs::" if g else "hypergirgs::"; T.q=q=(S if g else RL)+"buildPartition"; F=T.F=c.fn(m,q); E=T.E=Engine(m,name=q); st=State(); rt.omp(E); rt.libm(E)
        T.p,T.tid,T.ob=z3.Ints("team tid any_rank"); T.n,T.lay,T.max=z3.Ints("n layers max_cell_id"); n,lay,mx=T.n,T.lay,T.max; T.FC,T.TL,T.N,T.ID,T.PL,T.LB,T.LAY,T.CFP=[bn(k) for k in("first_cell","level_of","cells_of_level","vertex_at","place_of","places_below","layer_of","cell_of")]
        st.pc+=[n>=1,n<(1<<31)-1,lay>=1,lay<=30000,mx>=1,mx<(1<<31)-(1<<18),T.p>=1,T.p<=MAXT,T.tid>=0,T.tid<T.p,T.ob>=0,T.ob<T.p]
        z=z3.IntVal(0)
        if g: st.pc+=[T.FC(z)==0,T.FC(lay)==mx]
        else: st.pc+=[T.FC(lay-1)==0,mx==T.FC(z)+T.N(T.TL(z))]
        st.pc+=[T.LB(mx)==n,T.LB(z)==0]; T.nf=("index" if g else "id","cell_id"); T.st=st; T.sz=const(m,"size_node" if g else "size_point"); T.of={k:const(m,("node_" if g else "point_")+k) for k in(("index","cell_id","weight","coord") if g else("id","cell_id","invsinh_r","coth_r","cos_phi","sin_phi"))}
        T.ret=E.new_obj(st,"result"); st.g["made"]=z; T.w_=None; T.first=None; T.nodes=None; T.F_=None; st.tags.update(bar=0,reg=0,single=False,cs=())
        T.CID=lambda v:T.FC(T.LAY(v))+T.CFP(v)
        noop=lambda e,s,a,i:UNDEF
        E.C.update({"std::vector::vector":T.vec,"std::vector::~vector":noop,"std::vector::operator=":T.assign,"std::vector::reserve":noop,"std::vector::emplace_back":T.emplace,"std::vector::push_back":T.emplace,"ScopedTimer::ScopedTimer":noop,"ScopedTimer::~ScopedTimer":noop,
            "std::__cxx11::basic_string::basic_string":noop,"std::__cxx11::basic_string::~basic_string":noop,"intsort::intsort":T.sort,"__kmpc_fork_call":T.fork,"__kmpc_barrier":T.barrier,"__kmpc_single":T.single,"__kmpc_end_single":T.end_single,
            "omp_get_num_threads":lambda e,s,a,i:I(32,T.p,1,MAXT),"omp_get_thread_num":lambda e,s,a,i:I(32,T.tid,0,MAXT-1)})
        for k in("__kmpc_for_static_init_4","__kmpc_for_static_init_4u","__kmpc_for_static_init_8","__kmpc_for_static_init_8u"): E.C[k]=T.winit
        for k in("ScopedTimer::ScopedTimer","ScopedTimer::~ScopedTimer"): E.C[T.NS+k]=noop
        E.mulhook=mulhook; E.divhook=T.div; E.templates=T.tpl; E.incremental=True; E.fast_discovery=True; E.cut_const=4
        (T.setup_g if g else T.setup_h)()
    # ---- arithmetic
    def div(T,e,s,x,y):
        """x/y for a variable y>=1"""
        if not z3.simplify(y).eq(T.p): return None
        k=z3.Int(e.name("c")); p=T.p; s.pc+=[k>=0,MUL(k,p)<=x,x<MUL(k,p)+p,k<=x]; T.kfacts(s,k,T.tid); T.kfacts(s,k,T.ob); T.kfacts(s,k,z3.IntVal(0)); s.tags["cs"]+=(k,)
        s.pc+=[z3.Implies(x>=p,k>=1),MUL(k,z3.IntVal(0))==0]; T.c.lemma("lemma","a quotient by the number of threads",[x>=p,p>=1,k>=0,k*p<=x,x<k*p+p,z3.Implies(k<=0,k*p<=0)],k>=1) if not getattr(T,"l1",None) else None; T.l1=True
        return k
    def kfacts(T,s,k,t):
        p=T.p; s.pc+=[MUL(k,z3.simplify(t+1))==MUL(k,t)+k,z3.Implies(t>=0,MUL(k,t)>=0),z3.Implies(t<=p-1,MUL(k,t)<=MUL(k,p)-k),z3.Implies(t==p,MUL(k,t)==MUL(k,p))]
        for o in(T.tid,T.ob): s.pc+=[z3.Implies(z3.And(0<=t,t<=o),MUL(k,t)<=MUL(k,o)),z3.Implies(o<=t,MUL(k,t)>=MUL(k,o)),z3.Implies(t>o,MUL(k,t)>=MUL(k,o)+k)]
    # ---- facts
    def cellfacts(T,c): return [z3.Implies(z3.And(c>=0,c<=T.max),z3.And(T.LB(c)>=0,T.LB(c)<=T.n)),z3.Implies(z3.And(c>=0,c<T.max),T.LB(c)<=T.LB(c+1))]
    def mono(T,c,d): return [z3.Implies(z3.And(0<=c,c<=d,d<=T.max),T.LB(c)<=T.LB(d))]
    def place(T,k,c): return [z3.Implies(z3.And(0<=k,k<T.n,c>=0,c<=T.max),(T.CID(T.ID(k))<c)==(k<T.LB(c)))]
    def vfacts(T,v):
        """a vertex has a layer and a cell of that layer's insertion level"""
        l=T.LAY(v); nx=T.FC(l+1) if T.w=="g" else None; ok=z3.And(0<=v,v<T.n)
        return [z3.Implies(ok,z3.And(l>=0,l<T.lay,T.CFP(v)>=0,T.CFP(v)<T.N(T.TL(l)),T.CID(v)>=0,T.CID(v)<T.max)),*T.lfacts(l)]
    def lfacts(T,l):
        g=T.w=="g"; ok=z3.And(0<=l,l<T.lay); a=[z3.Implies(ok,z3.And(T.FC(l)>=0,T.TL(l)>=0,T.TL(l)<=(31//T.D if g else 30),T.N(T.TL(l))>=1,T.FC(l)+T.N(T.TL(l))<=T.max))]
        if g: a+=[z3.Implies(ok,T.FC(l+1)==T.FC(l)+T.N(T.TL(l))),z3.Implies(z3.And(0<=l,l<=T.lay),T.FC(l)<=T.max)]
        else: a+=[z3.Implies(ok,T.TL(l)==T.PB(T.rmin(l),T.rmin(z3.IntVal(0)),T.R)),z3.Implies(z3.And(1<=l,l<T.lay),T.FC(l-1)==T.FC(l)+T.N(T.TL(l))),z3.Implies(ok,z3.And(T.FC(l)<=T.FC(z3.IntVal(0))))]
        return a
    def kplace(T,k): return [z3.Implies(z3.And(0<=k,k<T.n),z3.And(T.ID(k)>=0,T.ID(k)<T.n,T.PL(T.ID(k))==k)),*T.vfacts(T.ID(k))]
    # ---- the surroundings
    def vobj(T,name,arr,sz,ln,ro=True):
        v=T.E.new_obj(T.st,name,{(0,8):P(arr,0),(8,8):P(arr,z3.simplify(sz*ln)),(16,8):P(arr,z3.simplify(sz*ln))}); v.readonly=ro; return v
    def setup_g(T):
        E,st,m,D=T.E,T.st,T.m,T.D; o={k:const(m,"off_"+k) for k in MEMBERS if k!="m_EdgeCallback"}; T.off=o; n=T.n; T.w0=z3.Real("m_w0"); lg=rfun("log2",1)
        T.W=E.new_arr(st,"weights",8,{0:("real",)},n); T.W.readonly=True; wm=st.mem[T.W.id][0]; T.wt=lambda k:z3.Select(wm,k); T.X=[UF(f"x{d}",IS(),RS()) for d in range(D)]
        def wh(e,s,ix,v): k=toZ(ix); x=T.wt(k)/T.w0; s.pc+=[z3.Implies(z3.And(0<=k,k<n),z3.And(lg(x)>=0,lg(x)<z3.ToReal(T.lay),T.LAY(k)==z3.ToInt(lg(x)))),*T.vfacts(k)]
        T.W.hooks[0]=[wh]; st.pc+=[T.w0>0]
        T.pos=E.new_arr(st,"positions",24,{},n); T.pos.readonly=True; T.vw=T.vobj("weights vector",T.W,8,n); T.vp=T.vobj("positions vector",T.pos,24,n)
        T.this=E.new_obj(st,"this"); mem=st.mem[T.this.id]; mem[(o["m_layers"],4)]=I(32,T.lay,1,30000); mem[(o["m_w0"],8)]=R(T.w0); mem[(o["m_profile"],1)]=I(8,z3.Int("m_profile"),0,1)
        T.pn,T.pf=(T.this,o["m_nodes"]),(T.this,o["m_first_in_cell"]); T.args=[P(T.ret,0),P(T.this,0),P(T.vw,0),P(T.vp,0)]
        def tl(e,s,a,i): l=toZ(e.wraps(s,a[1])); e.oblige(s,"weightLayerTargetLevel: the layer exists",z3.And(l>=0,l<T.lay),"pre"); s.pc+=T.lfacts(l); return I(32,T.TL(l),0,31)
        def nc(e,s,a,i): l=toZ(e.wrapu(s,a[-1])); e.oblige(s,"numCellsInLevel: the level exists",z3.And(l>=0,l<=31//D),"pre"); s.pc+=[T.N(l)>=1]; return I(32,T.N(l),0,(1<<32)-1)
        def cfp(e,s,a,i):
            p,l=a[-2],toZ(e.wrapu(s,a[-1]))
            if not(isinstance(p,P) and p.r is T.nodes): raise Unsupported("cellForPoint of something else")
            ix,fo=e.split_off(s,p.r,p.o,0); ix=toZ(ix); v=z3.Int(e.name("cell"))
            e.oblige(s,"cellForPoint gets the coordinates of a vertex and the insertion level of its layer",z3.And(z3.BoolVal(fo==T.of["coord"]),*[z3.Select(s.mem[p.r.id][T.of["coord"]+8*d],ix)==T.X[d](ix) for d in range(D)],l==T.TL(T.LAY(ix)),ix>=0,ix<n),"pre")
            s.pc+=T.vfacts(ix); return I(32,T.CFP(ix),0,(1<<32)-1)
        def node(e,s,a,i):
            if len(a)==1: return UNDEF
            d,pv,w,ix=a[0],a[1],a[2],a[3]; ci=a[4] if len(a)>4 else I(32,0)
            if not(isinstance(pv,P) and pv.r is T.pos): raise Unsupported("Node from another position")
            k,fo=e.split_off(s,T.pos,pv.o,0); k=toZ(k); e.oblige(s,"the position exists",z3.And(z3.BoolVal(fo==0),k>=0,k<n),"bounds"); d8,d4=T.dty(),T.ity()
            for j in range(D): e.store(s,e.padd(d,T.of["coord"]+8*j),R(T.X[j](k)),d8)
            e.store(s,e.padd(d,T.of["weight"]),w,d8); e.store(s,e.padd(d,T.of["index"]),ix,d4); e.store(s,e.padd(d,T.of["cell_id"]),ci,d4); return UNDEF
        E.C.update({S+"weightLayerTargetLevel":tl,H+"numCellsInLevel":nc,H+"cellForPoint":cfp,"girgs::Node::Node":node})
        T.fields={**{T.of["coord"]+8*d:("real",64) for d in range(D)},T.of["weight"]:("real",64),T.of["index"]:("int",32),T.of["cell_id"]:("int",32)}
        T.spec={**{T.of["coord"]+8*d:(lambda v,d=d:T.X[d](v)) for d in range(D)},T.of["weight"]:T.wt,T.of["index"]:lambda v:v,T.of["cell_id"]:T.CID}
    def setup_h(T):
        E,st,m=T.E,T.st,T.m; n=T.n; T.R=z3.Real("R"); T.h=z3.Real("layer_height"); st.pc+=[T.R>0,T.h>0,T.h<=T.R,z3.ToReal(T.lay)>=T.R/T.h,z3.ToReal(T.lay)<T.R/T.h+1,T.TL(z3.IntVal(0))>=0,T.TL(z3.IntVal(0))<=30]
        T.rad=E.new_arr(st,"radii",8,{0:("real",)},n); T.ang=E.new_arr(st,"angles",8,{0:("real",)},n); T.rad.readonly=T.ang.readonly=True; rm,am=st.mem[T.rad.id][0],st.mem[T.ang.id][0]; T.rd=lambda k:z3.Select(rm,k); T.an=lambda k:z3.Select(am,k); T.CLV=UF("cell_for_point",RS(),IS(),IS())
        def rh(e,s,ix,v): k=toZ(ix); x=(T.R-T.rd(k))/T.h; s.pc+=[z3.Implies(z3.And(0<=k,k<n),z3.And(T.rd(k)>0,T.rd(k)<T.R,T.LAY(k)==z3.ToInt(x),x>=0,x<z3.ToReal(T.lay),T.CFP(k)==T.CLV(T.an(k),T.TL(T.LAY(k))))),*T.vfacts(k)]
        def ah(e,s,ix,v): k=toZ(ix); s.pc+=[z3.Implies(z3.And(0<=k,k<n),z3.And(T.an(k)>=0,T.an(k)<toZ(2*PI_D)))]
        T.rad.hooks[0]=[rh]; T.ang.hooks[0]=[ah]; T.vr=T.vobj("radii vector",T.rad,8,n); T.va=T.vobj("angles vector",T.ang,8,n); T.po=E.new_obj(st,"points"); T.fo=E.new_obj(st,"first_in_cell")
        for v in(T.po,T.fo):
            for d in(0,8,16): st.mem[v.id][(d,8)]=P(None,0)
        T.pn,T.pf=(T.po,0),(T.fo,0); T.args=[P(T.ret,0),P(T.vr,0),P(T.va,0),R(T.R),R(T.h),P(T.po,0),P(T.fo,0),B(z3.Bool("profile"))]
        PB=UF("PBL3",RS(),RS(),RS(),IS()); T.PB=PB; T.rmin=lambda l:z3.If(T.R-z3.ToReal(l)*T.h-T.h>0,T.R-z3.ToReal(l)*T.h-T.h,z3.RealVal(0)); T.rmax=lambda l:T.R-z3.ToReal(l)*T.h
        def pbl(e,s,a,i):
            x,y,rr=[toR(v.t) for v in a[-3:]]; s.pc+=[PB(x,y,rr)>=0,PB(x,y,rr)<=30]; e.oblige(s,"partitioningBaseLevel: radii below R",z3.And(x<T.R,y<T.R,x>=0,y>=0),"pre"); return I(32,PB(x,y,rr),0,30)
        def nc(e,s,a,i): l=toZ(e.wrapu(s,a[-1])); e.oblige(s,"numCellsInLevel: the level exists",z3.And(l>=0,l<=30),"pre"); s.pc+=[T.N(l)>=1]; return I(32,T.N(l),0,(1<<32)-1)
        def cfp(e,s,a,i):
            x,l=toR(a[-2].t),toZ(e.wrapu(s,a[-1])); v=T.CLV(x,l); e.oblige(s,"cellForPoint: the angle is in [0,2 pi), the level exists",z3.And(x>=0,x<toZ(2*PI_D),l>=0,l<=30),"pre"); s.pc+=[v>=0,v<T.N(l)]; return I(32,v,0,(1<<32)-1)
        ch,sh,co,si=[rfun(k,1) for k in("cosh","sinh","cos","sin")]; T.hyp={"invsinh_r":UF("inv_sinh",RS(),RS()),"coth_r":UF("coth",RS(),RS()),"cos_phi":co,"sin_phi":si}
        def point(e,s,a,i):
            if len(a)==1: return UNDEF
            d,k,r,x=a[:4]; ci=a[4] if len(a)>4 else I(32,0); d8,d4=T.dty(),T.ity(); e.oblige(s,"Point: id, radius and angle are valid",z3.And(toZ(e.wraps(s,k))>=0,toR(r.t)>0,toR(x.t)>=0),"pre")
            e.store(s,e.padd(d,T.of["id"]),k,d4); e.store(s,e.padd(d,T.of["cell_id"]),ci,d4)
            for f,v in(("invsinh_r",r),("coth_r",r),("cos_phi",x),("sin_phi",x)): e.store(s,e.padd(d,T.of[f]),R(T.hyp[f](toR(v.t))),d8)
            return UNDEF
        E.C.update({RL+"partitioningBaseLevel":pbl,AH+"numCellsInLevel":nc,AH+"cellForPoint":cfp,PT+"Point":point})
        T.fields={T.of["id"]:("int",32),T.of["cell_id"]:("int",32),**{T.of[f]:("real",64) for f in T.hyp}}
        T.spec={T.of["id"]:lambda v:v,T.of["cell_id"]:T.CID,T.of["invsinh_r"]:lambda v:T.hyp["invsinh_r"](T.rd(v)),T.of["coth_r"]:lambda v:T.hyp["coth_r"](T.rd(v)),T.of["cos_phi"]:lambda v:T.hyp["cos_phi"](T.an(v)),T.of["sin_phi"]:lambda v:T.hyp["sin_phi"](T.an(v))}
    @staticmethod
    def dty():
        t=llvmc.Ty(); t.kind="float"; t.w=64; t.size=8; return t
    @staticmethod
    def ity():
        t=llvmc.Ty(); t.kind="int"; t.w=32; t.size=4; return t
    # ---- vectors
    def vec(T,e,s,a,i):
        d=i.fn.dname; sizes=[x for x in a[1:] if isinstance(x,I)]
        if sizes:
            k=z3.simplify(toZ(e.wrapu(s,sizes[0]))); fill=[x for x in a[1:] if isinstance(x,P) and len(a)>=4]
            if re.match(r"std::vector<(girgs::Node|hypergirgs::Point)",d):
                r=T.nodes=e.new_arr(s,"nodes",T.sz,T.fields,k); sz=T.sz; T.N0=None
                e.oblige(s,"there is a place for every vertex",k==T.n,"post")
                for f in T.fields: r.hooks[("w",f)]=[T.node_written]; r.hooks[f]=[T.node_read]
            else:
                fv=None
                if fill: fv=toZ(e.wrapu(s,e.load(s,fill[0],T.ity())))
                elif len(sizes)>1: fv=toZ(e.wrapu(s,sizes[1]))
                r=e.new_arr(s,"first_in_cell" if fv is not None else "levels/first cells",4,{0:("int",32)},k); sz=4
                arr=s.mem[r.id][0]; s.tags["schemas"]=s.tags.get("schemas",())+((arr,lambda ix,arr=arr,fv=fv,k=k:z3.Implies(z3.And(ix>=0,ix<k),z3.Select(arr,ix)==(0 if fv is None else fv))),)
                if fv is not None:
                    T.F_=r; T.gap=z3.simplify(fv); e.oblige(s,"there is an entry for every cell and one behind",k==T.max+1,"post"); e.oblige(s,"the mark of empty cells is no place",z3.Or(fv>T.n,fv<0),"post"); r.hooks[0]=[T.first_read]; r.hooks[("w",0)]=[T.first_written]
                else: r.hooks[0]=[lambda e2,s2,ix,v:s2.pc.extend(T.lfacts(toZ(ix))+T.lfacts(z3.simplify(toZ(ix)+1))+T.lfacts(z3.simplify(toZ(ix)-1)))]
            for off,v in((0,0),(8,sz*k),(16,sz*k)): e.store(s,e.padd(a[0],off),P(r,z3.simplify(toZ(v)) if not isinstance(v,int) else v),_ptr())
            return UNDEF
        if len(a)==1 or not(isinstance(a[1],P) and a[1].r is not None and a[1].r.kind=="obj" and (0,8) in s.mem[a[1].r.id]):
            for off in(0,8,16): e.store(s,e.padd(a[0],off),P(None,0),_ptr())
            return UNDEF
        return T.assign(e,s,a,i) and UNDEF
    def assign(T,e,s,a,i):
        for off in(0,8,16): e.store(s,e.padd(a[0],off),e.load(s,e.padd(a[1],off),_ptr()),_ptr())
        return a[0]
    # ---- what may be read and written
    def node_read(T,e,s,ix,v): k=toZ(ix); s.pc+=T.kplace(k) if s.tags.get("sorted") else T.vfacts(k)
    def node_written(T,e,s,ix,v): e.oblige(s,"a node is only written by its own iteration of the classification loop",z3.And(toZ(ix)==e.loop_stack[0][2],z3.BoolVal(s.tags["reg"]=="loop" and not s.tags.get("sorted"))) if e.loop_stack else z3.BoolVal(False),"frame")
    def chunk(T,s,t):
        c=s.tags["cs"]
        if len(c)!=1: raise Unsupported("chunk size")
        c=c[0]; lo=MUL(c,t); hi=z3.simplify(lo+c); mn=lambda x:z3.If(x<T.max,x,T.max); return mn(lo),mn(hi)
    def first_read(T,e,s,ix,v):
        c=toZ(ix); t=toZ(v.t) if isinstance(v,I) else toZ(v); s.pc+=T.cellfacts(c)+T.mono(c,T.max)
        if s.tags["reg"]=="loop" : raise Unsupported("a worksharing loop reads the entries it fills")
        if s.tags["reg"]=="region":
            if s.tags["bar"]==0: e.oblige(s,"before the barrier, only the single section uses the entries",z3.BoolVal(s.tags["single"] is True),"race")
    def first_written(T,e,s,ix,v):
        c=toZ(ix); x=toZ(e.wrapu(s,v)); s.pc+=T.cellfacts(c)+T.mono(c,T.max)
        if s.tags["reg"]=="region":
            if s.tags["bar"]==0: e.oblige(s,"before the barrier, only the single section uses the entries",z3.BoolVal(s.tags["single"] is True),"race")
            else: lo,hi=T.chunk(s,T.tid); e.oblige(s,"a thread writes its own part",z3.And(lo<=c,c<hi),"race")
        e.oblige(s,"what is written is the first place of the cell",x==T.LB(c),"race" if s.tags["reg"] else "post")
    # ---- OpenMP
    def winit(T,e,s,a,i):
        if s.tags["reg"]!="outlined": raise Unsupported("worksharing loop inside a region with barriers")
        s.tags["reg"]="loop"; return UNDEF
    def fork(T,e,s,a,i):
        fn=a[2]; g=e.new_obj(s,"gtid"); s.mem[g.id][(0,4)]=I(32,T.tid,0,MAXT-1); s.tags.update(reg="outlined",bar=0,single=False,cs=()); e.assumed.add("OpenMP executes every iteration of a worksharing loop exactly once, on some thread of the team; a single section is executed by one thread before any thread passes its barrier")
        out=[]; single_seen=False
        names=" ".join(str(getattr(getattr(x,"fn",None),"name","")) for b in e.mod.body(fn.f).blocks for x in b.insts)
        if("__kmpc_single" in names or "__kmpc_barrier" in names) and "static_init" not in names: s.tags["reg"]="region"
        for s2,v in e.run_fn(fn.f,[P(g,0),P(g,0)]+a[3:],s):
            if s2.tags["reg"]=="region": T.region_end(e,s2)
            s2.tags["reg"]=0; out.append((s2,UNDEF))
        return out
    def single(T,e,s,a,i): s2=s.copy(); s2.tags["single"]=True; return [(s2,I(32,1)),(s,I(32,0))]
    def end_single(T,e,s,a,i): s.tags["sdone"]=True; s.tags["single"]="done"; return UNDEF
    def fst(T,s): return s.mem[T.F_.id][0]
    def known(T,s,arr,f):
        s.tags["schemas"]=s.tags.get("schemas",())+((arr,f),)
    def weak(T,arr,c): return z3.Implies(z3.And(c>=0,c<=T.max),z3.Or(z3.Select(arr,c)==T.LB(c),z3.And(c<T.max,z3.Select(arr,c)==T.gap,T.LB(c)==T.LB(c+1))))
    def barrier(T,e,s,a,i):
        if s.tags["reg"]!="region": raise Unsupported("barrier")
        s.tags["bar"]+=1; arr=T.fst(s); c0,c1=T.chunk(s,T.tid)
        if s.tags["bar"]>1: raise Unsupported("another barrier")
        if s.tags["single"]:
            l,h=T.chunk(s,T.ob); e.instantiate(s,arr,z3.simplify(h-1)); e.instantiate(s,arr,Q)
            e.oblige(s,"after the single section the last entry of every thread's part is final",z3.Implies(l<h,z3.Select(arr,h-1)==T.LB(h-1)),"post"); e.oblige(s,"after the single section every entry is the first place of its cell, or the mark of an empty cell",T.weak(arr,Q),"post")
        N=z3.Array(e.name("first"),IS(),IS()); s.mem[T.F_.id][0]=N; e.note_write((T.F_.id,0)); s.tags["single"]=False
        T.known(s,N,lambda c:z3.And(T.weak(N,c),z3.Implies(z3.And(c==c1-1,c0<c1),z3.Select(N,c)==T.LB(c)),*T.cellfacts(c)))
        return UNDEF
    def region_end(T,e,s):
        e.oblige(s,"the repair of the empty cells waits for the single section",z3.BoolVal(s.tags["bar"]==1),"race"); lo,hi=T.chunk(s,T.tid) if s.tags["cs"] else (z3.IntVal(0),T.max); arr=T.fst(s); e.instantiate(s,arr,Q)
        e.oblige(s,"a thread leaves every entry of its part as the first place of the cell",z3.Implies(z3.And(lo<=Q,Q<hi),z3.Select(arr,Q)==T.LB(Q)),"post")
        N=z3.Array(e.name("first"),IS(),IS()); s.mem[T.F_.id][0]=N; e.note_write((T.F_.id,0)); T.known(s,N,lambda c:z3.And(z3.Implies(z3.And(c>=0,c<=T.max),z3.Select(N,c)==T.LB(c)),*T.cellfacts(c)))
    def lemmas(T):
        p,x,mx,c,t=z3.Ints("team cell max chunk rank"); H_=[p>=1,mx>=1,c*p>=mx,c>=1,c*p<mx+p,x>=0,x<mx,t*c<=x,x<t*c+c,z3.Implies(t>=p,t*c>=p*c)]
        T.c.lemma("lemma","every cell lies in the part of a thread of the team",H_,z3.And(t>=0,t<p)); t2=z3.Int("rank2"); T.c.lemma("lemma","parts of different threads are disjoint",[c>=1,t*c<=x,x<t*c+c,t2*c<=x,x<t2*c+c,z3.Implies(t<t2,t2*c>=t*c+c),z3.Implies(t2<t,t*c>=t2*c+c)],t==t2)
        T.c.lemma("lemma","a product grows with its factor",[c>=0,t<=t2-1],c*((t2-1)-t)>=0)
    # ---- sorting (contract proved for C15)
    def sort(T,e,s,a,i):
        if not(a[0].r is T.pn[0] and conc(toZ(a[0].o))==T.pn[1]): raise Unsupported("sorting something else")
        p=e.load(s,a[0],_ptr()); en=e.load(s,e.padd(a[0],8),_ptr()); r=T.nodes; mk=toZ(e.wrapu(s,a[-1])); mem=s.mem[r.id]; s.pc+=T.vfacts(Q)
        e.oblige(s,"the array of all nodes is sorted",z3.And(z3.BoolVal(p.r is r and en.r is r),toZ(p.o)==0,toZ(en.o)==T.sz*T.n),"pre")
        for f in T.fields: e.instantiate(s,mem[f],Q)
        ok=z3.And(Q>=0,Q<T.n)
        e.oblige(s,"every node carries its vertex' data",z3.Implies(ok,z3.And(*[z3.Select(mem[f],Q)==T.spec[f](Q) for f in T.fields if f!=T.of["cell_id"]])),"post"); e.oblige(s,"every node carries the number of the cell of its layer that contains it",z3.Implies(ok,z3.Select(mem[T.of["cell_id"]],Q)==T.CID(Q)),"post")
        e.oblige(s,"no cell number exceeds the maximum key given",z3.Implies(ok,z3.And(T.CID(Q)<=mk,T.CID(Q)>=0)),"pre")
        T.check_key(e,s,i)
        for f,k in T.fields.items():
            N=z3.Array(e.name(f"sorted{f}"),IS(),RS() if k[0]=="real" else IS()); mem[f]=N; e.note_write((r.id,f)); T.known(s,N,lambda ix,N=N,f=f:z3.And(z3.Implies(z3.And(ix>=0,ix<T.n),z3.Select(N,ix)==T.spec[f](T.ID(ix))),*T.kplace(ix)))
        z=z3.IntVal(0); s.tags["sorted"]=True; s.pc+=T.kplace(z)+T.place(z,T.CID(T.ID(z)))+T.cellfacts(T.CID(T.ID(z)))
        return UNDEF
    def check_key(T,e,s,i):
        """the key function given to intsort returns the cell number"""
        if T.E.discovering or getattr(T,"keyed",False): return
        m=re.search(KEY,i.fn.dname.split("intsort::intsort<",1)[-1])
        fs=[f for f in T.m.funcs.values() if not f.decl and keyfn(f.dname) and m and re.search(KEY,f.dname).group(1)==m.group(1)]
        if len(fs)!=1: raise Unsupported(f"the key function of intsort ({len(fs)} candidates)")
        E2=Engine(T.m,name=T.q+" key"); st=State(); ci=z3.Int("cell"); o=E2.new_obj(st,"node",{(T.of["cell_id"],4):I(32,ci,0,(1<<31)-1)}); o.readonly=True; st.pc+=[ci>=0,ci<(1<<31)]; l=E2.new_obj(st,"lambda")
        F2=T.m.body(fs[0]); args=[P(l,0),P(o,0)][-len(F2.params):]
        for s2,v in E2.run_fn(F2,args,st): E2.oblige(s2,"the points are sorted by their cell number",toZ(E2.wrapu(s2,v))==ci,assume=False)
        T.keyed=True; T.c.discharge(E2,dict(cell=ci))
    def emplace(T,e,s,a,i):
        if a[0].r is not T.ret: raise Unsupported("emplace_back to another vector")
        K=s.g["made"]; g=T.w=="g"
        if len(a)==2:   # push_back of a layer
            o={f:const(T.m,"layer_"+f) for f in LF[2 if g else 0:]}; tg=e.load(s,e.padd(a[1],o["m_target_level"]),T.ity()); b=e.load(s,e.padd(a[1],o["m_base"]),_ptr()); ps=e.load(s,e.padd(a[1],o["m_prefix_sums"]),_ptr()); rr=[] if g else [e.load(s,e.padd(a[1],o[f]),T.dty()) for f in("m_r_min","m_r_max")]
        else:
            x=a[1:]; rr=[] if g else [e.load(s,p,T.dty()) for p in x[:2]]; x=x[0 if g else 2:]; tg=e.load(s,x[0],T.ity()); b=e.load(s,x[1],_ptr()); ps=e.load(s,x[2],_ptr())
        s.pc+=T.lfacts(K)
        e.oblige(s,"the layers are made in order, each with its insertion level",toZ(e.wrapu(s,tg))==T.TL(K),"post"); e.oblige(s,"a layer exists",z3.And(K>=0,K<T.lay),"post")
        e.oblige(s,"every layer refers to the array of all nodes",z3.And(z3.BoolVal(b.r is T.nodes),toZ(b.o)==0),"post"); e.oblige(s,"the prefix sums of a layer start at its first cell",z3.And(z3.BoolVal(ps.r is T.F_),toZ(ps.o)==4*T.FC(K)),"post")
        if not g: e.oblige(s,"a layer's radii are those of its band",z3.And(toR(rr[0].t)==T.rmin(K),toR(rr[1].t)==T.rmax(K)),"post")
        s.g["made"]=z3.simplify(K+1); e.note_write(("g","made")); return UNDEF
    # ---- loop invariants
    def tpl(T,L):
        out=[]; mods=L.ctx["mods"]; E=T.E; n=T.n; FC,TL,N=T.FC,T.TL,T.N; g=T.w=="g"
        def ax(f): out.append(("facts",lambda M:(M.st.pc.extend(f(M) or []),True)[1]))
        ipn=[p for p,v in L.phis(I)]; aff={p.id:L.eng.affine_delta(L.F,p,L.h) for p,v in L.phis(I)}
        arrs=[k for k in mods if k[0]!="g" and k[0] in L.entry.mem and isinstance(k[1],int) and isinstance(L.entry.mem[k[0]].get(k[1]),z3.ArrayRef) and L.st.mem[k[0]].get("len") is not None]
        for k in arrs:
            if T.nodes is not None and k[0]==T.nodes.id:
                f=k[1]; ga=lambda M,k=k:M.st.mem[k[0]][k[1]]; ax(lambda M:T.vfacts(Q)+T.vfacts(M.K))
                out.append((f"nodes filled so far (field {f})",Schema(ga,lambda M,i,ga=ga,f=f:z3.Implies(z3.And(i>=0,i<M.K),z3.Select(ga(M),i)==T.spec[f](i)))))
            elif T.F_ is not None and k[0]==T.F_.id:
                gF=lambda M:T.fst(M.st)
                ax(lambda M:(E.instantiate(M.st,T.fst(M.st),Q),T.cellfacts(Q)+T.cellfacts(Q+1)+T.mono(Q,T.max)+T.mono(Q+1,T.max)+T.mono(z3.IntVal(0),Q)+T.kplace(z3.IntVal(0))+T.place(z3.IntVal(0),Q)+T.place(z3.IntVal(0),Q+1))[1])
                if L.entry.tags["reg"]=="loop":
                    ax(lambda M:T.kplace(M.K)+T.kplace(M.K+1)+T.kplace(M.K-1)+[y for k_ in(M.K,M.K+1,M.K-1) for c in(Q,Q+1) for y in T.place(k_,c)]+[y for k_ in(M.K,M.K+1) for j in(M.K,M.K+1) for d in(0,1) for y in T.place(k_,T.CID(T.ID(j))+d)])
                    out.append(("cells marked so far",Schema(gF,lambda M,c:z3.And(z3.Implies(z3.And(c>=0,c<T.max),z3.Select(gF(M),c)==z3.If(z3.And(T.LB(c)<T.LB(c+1),T.LB(c)<=M.K),T.LB(c),T.gap)),z3.Implies(c==T.max,z3.Select(gF(M),c)==n)))))
                else:
                    out.append(("every entry is a first place or the mark of an empty cell",Schema(gF,lambda M,c:T.weak(gF(M),c))))
                    if L.entry.tags["bar"]==0 and L.entry.tags["cs"]:
                        c0,c1=T.chunk(L.entry,T.ob); cs=L.entry.tags["cs"][0]
                        ax(lambda M:T.kfacts(M.st,cs,M.K))
                        out.append(("last entries fixed so far",Schema(gF,lambda M,c:z3.Implies(z3.And(c==c1-1,c0<c1,M.K>T.ob),z3.Select(gF(M),c)==T.LB(c))))); out.append(("threads",lambda M:M.K<=T.p))
                    elif L.entry.tags["cs"]:
                        c0,c1=T.chunk(L.entry,T.tid)
                        for q_ in ipn: out.append(("entries from the end of the part are final",Schema(gF,lambda M,c,q_=q_:z3.Implies(z3.And(c>=toZ(M.st.env[q_.id].t),c<c1,c0<c1),z3.Select(gF(M),c)==T.LB(c)))))
                        for q_ in ipn: out.append(("within the part",lambda M,q_=q_:z3.And(toZ(M.st.env[q_.id].t)>=c0,toZ(M.st.env[q_.id].t)<=c1)))
                        out.append(("own last entry",Schema(gF,lambda M,c:z3.Implies(z3.And(c==c1-1,c0<c1),z3.Select(gF(M),c)==T.LB(c)))))
            else:
                ga=lambda M,k=k:M.st.mem[k[0]][k[1]]
                ax(lambda M:T.lfacts(M.K)+T.lfacts(Q))
                out.append(("first cells of layers so far",Schema(ga,lambda M,i,ga=ga:z3.Implies(z3.And(i>=0,i<M.K),z3.Select(ga(M),i)==FC(i))))); out.append(("levels of layers so far",Schema(ga,lambda M,i,ga=ga:z3.Implies(z3.And(i>=0,i<M.K),z3.Select(ga(M),i)==TL(i)))))
                out.append(("first cells of the inner layers so far",Schema(ga,lambda M,i,ga=ga:z3.Implies(z3.And(i>=T.lay-M.K,i<T.lay),z3.Select(ga(M),i)==FC(i)))))
        for p in ipn:
            if L.entry.tags["reg"]=="loop": out.append((f"iteration number {p.id}",lambda M,p=p:toZ(E.wrapu(M.st,M.st.env[p.id]))==toZ(E.wrapu(L.entry,L.phi0(p)))+M.K))
            if aff[p.id] is not None and arrs: continue
            x=lambda M,p=p:toZ(E.wrapu(M.st,M.st.env[p.id]))
            out.append((f"sum of cells {p.id}",lambda M,x=x:x(M)==FC(M.K))); out.append((f"sum of inner cells {p.id}",lambda M,x=x:z3.Implies(M.K<T.lay,x(M)==FC(T.lay-1-M.K)) if not g else None)); out.append((f"all cells {p.id}",lambda M,x=x:z3.Implies(M.K==T.lay,x(M)==T.max) if not g else None))
        if not arrs and T.F_ is not None and L.entry.tags["reg"]=="region":      # the scan for the next non-empty cell
            for p,v in L.phis(I):
                e0=toZ(L.phi0(p).t); x=lambda M,p=p:toZ(M.st.env[p.id].t); ax(lambda M,x=x:T.cellfacts(x(M)))
                out.append((f"scan range {p.id}",lambda M,x=x,e0=e0:z3.And(x(M)<=T.max,x(M)>=0,x(M)>=e0))); out.append((f"only empty cells so far {p.id}",lambda M,x=x,e0=e0:T.LB(x(M))==T.LB(e0)))
        if not g and not arrs and L.entry.tags.get("sorted"): out.append(("layers without a point",lambda M:M.K<=T.LAY(T.ID(z3.IntVal(0)))))
        out.append(("layers",lambda M:M.K<=T.lay)); out.append(("layers made so far",lambda M:M.st.g["made"]==M.entry.g["made"]+M.K))
        return out
    def run(T):
        E=T.E; ret=E.run_fn(T.F,T.args,T.st); q=T.q; T.c.cover(q,"runs",[z3.BoolVal(bool(ret))]); T.lemmas(); k,c=z3.Ints("k c")
        for s,v in ret:
            T.c.cover(q,"a path to the end",s.pc); mem=s.mem[T.nodes.id]
            (ro,oo),(rf,of)=T.pn,T.pf; b,en=E.load(s,P(ro,oo),_ptr()),E.load(s,P(ro,oo+8),_ptr()); fb,fe=E.load(s,P(rf,of),_ptr()),E.load(s,P(rf,of+8),_ptr())
            E.oblige(s,"afterwards the nodes are the vertices, each once, sorted by cell",z3.And(z3.BoolVal(b.r is T.nodes and en.r is T.nodes and bool(s.tags.get("sorted"))),toZ(b.o)==0,toZ(en.o)==T.sz*T.n),assume=False)
            for f in T.fields: E.instantiate(s,mem[f],k)
            E.oblige(s,"a node carries its vertex' data and cell number",z3.Implies(z3.And(k>=0,k<T.n),z3.And(*[z3.Select(mem[f],k)==T.spec[f](T.ID(k)) for f in T.fields])),assume=False)
            E.oblige(s,"there is an entry for every cell",z3.And(z3.BoolVal(fb.r is T.F_ and fe.r is T.F_),toZ(fb.o)==0,toZ(fe.o)==4*(T.max+1)),assume=False)
            E.instantiate(s,T.fst(s),c); E.oblige(s,"the entry of every cell is the number of nodes in the cells before it",z3.Implies(z3.And(c>=0,c<=T.max),z3.Select(T.fst(s),c)==T.LB(c)),assume=False)
            T.final(s,k)
        T.c.discharge(E,dict(n=T.n,layers=T.lay,max_cell_id=T.max,threads=T.p))
    def final(T,s,k):
        E=T.E
        if T.w=="g": E.oblige(s,"there is a layer object for every layer",s.g["made"]==T.lay,assume=False)
        else:
            v=z3.Int("vertex"); s.pc+=T.vfacts(v)+T.kplace(T.PL(v))+[z3.Implies(z3.And(0<=v,v<T.n),z3.And(T.PL(v)>=0,T.PL(v)<T.n,T.ID(T.PL(v))==v))]; z=z3.IntVal(0); a=z3.simplify(toZ(s.g["made"])-1); b=T.LAY(v)-1; s.pc+=T.kplace(z)+T.place(T.PL(v),T.CID(T.ID(z)))+T.place(z,T.CID(T.ID(z)))+T.cellfacts(T.CID(T.ID(z)))+T.lfacts(T.LAY(v))+T.lfacts(a)+[z3.Implies(z3.And(0<=a,a<=b,b<T.lay),T.FC(b)<=T.FC(a))]
            k1,l1=z3.Ints("layer_k layer_l"); T.c.lemma("lemma","first cells of inner layers are smaller (induction step)",[k1<=l1,T.FC(k1)>=T.FC(l1),T.FC(l1)==T.FC(l1+1)+T.N(T.TL(l1+1)),T.N(T.TL(l1+1))>=1],T.FC(k1)>=T.FC(l1+1)) if not getattr(T,"l2",None) else None; T.l2=True
            E.oblige(s,"every vertex is in a layer that has a layer object",z3.Implies(z3.And(0<=v,v<T.n),T.LAY(v)<s.g["made"]),assume=False)
def partition(c,which,D=1): Part(c,which,D).run()

# ---- access functions of a layer
def access(c,which,D=1):
    """pointsInCell, cellIterators, kthPoint of a layer whose prefix sums are the first places of the cells (partition's postcondition)"""
    g=which=="g"; m=c.load(gtu(D),gkeep) if g else c.load(hptu(),hpkeep); cls="girgs::WeightLayer::" if g else "hypergirgs::RadiusLayer::"; hp=H if g else AH; ml=31//D if g else 30
    size=const(m,"size_node" if g else "size_point"); FIRST,N,LB=bn("first_cell_of_level"),bn("cells_of_level"),bn("places_below")
    for fn in("pointsInCell","cellIterators","kthPoint"):
        q=cls+fn; F=c.fn(m,q); E=Engine(m,name=q); st=State(); rt.libm(E); E.mulhook=mulhook
        t,l,cell,fc,mx,n,k=z3.Ints("target_level level c!cell first_cell max_cell_id n k"); a=z3.Int("c!local"); NN=N(t-l)
        st.pc+=[t>=0,t<=ml,l>=0,l<=t,fc>=0,mx<(1<<31)-(1<<18),n>=1,n<(1<<31)-1,N(t)>=1,N(l)>=1,NN>=1,fc+N(t)<=mx,FIRST(l)>=0,a>=0,a<N(l),cell==FIRST(l)+a,cell<(1<<32),FIRST(l)+N(l)<=(1<<32)]
        # N(level)*N(t-level)==N(t) and a<N(level)
        st.pc+=[MUL(a,NN)>=0,MUL(a,NN)+NN<=N(t),MUL(a,z3.IntVal(0))==0]
        def nc(e,s,x,i): v=toZ(e.wrapu(s,x[-1])); e.oblige(s,"numCellsInLevel: the level exists",z3.And(v>=0,v<=ml),"pre"); return I(32,N(v),0,(1<<32)-1)
        def fl(e,s,x,i): v=toZ(e.wrapu(s,x[-1])); e.oblige(s,"firstCellOfLevel: the level exists",z3.And(v>=0,v<=ml+1),"pre"); s.pc+=[z3.Implies(v==l,FIRST(v)==FIRST(l))]; return I(32,FIRST(v),0,(1<<32)-1)
        E.C.update({hp+"numCellsInLevel":nc,hp+"firstCellOfLevel":fl})
        Fa=E.new_arr(st,"first_in_cell",4,{0:("int",32)},z3.simplify(mx+1)); nodes=E.new_arr(st,"nodes",size,{},n); Fa.readonly=nodes.readonly=True
        def rd(e,s,ix,v): x=toZ(ix); s.pc+=[z3.Implies(z3.And(x>=0,x<=mx),z3.And(toZ(v.t if isinstance(v,I) else v)==LB(x),LB(x)>=0,LB(x)<=n))]
        Fa.hooks[0]=[rd]
        o=E.new_obj(st,"layer"); o.readonly=True; mem=st.mem[o.id]
        mem[(const(m,"layer_m_target_level"),4)]=I(32,t,0,ml); mem[(const(m,"layer_m_base"),8)]=P(nodes,0); mem[(const(m,"layer_m_prefix_sums"),8)]=P(Fa,z3.simplify(4*fc))
        if not g: mem[(const(m,"layer_m_r_min"),8)]=R(z3.Real("r_min")); mem[(const(m,"layer_m_r_max"),8)]=R(z3.Real("r_max"))
        lo,hi=LB(fc+MUL(a,NN)),LB(fc+MUL(a,NN)+NN); st.pc+=[0<=lo,lo<=hi,hi<=n]
        args=[P(o,0),I(32,cell,0,(1<<32)-1),I(32,l,0,ml)]
        if fn=="kthPoint": st.pc+=[k>=0,k<hi-lo]; args.append(I(32,k,0,(1<<31)-1))
        E.mulfacts=None; sret=None
        if F.ret.kind=="void": sret=E.new_obj(st,"result"); args=[P(sret,0)]+args
        # the local index is what is multiplied
        def tie(x,y):
            if z3.simplify(x-(cell-FIRST(l))).eq(z3.IntVal(0)) or z3.simplify(x-(cell-FIRST(l)),som=True).eq(z3.IntVal(0)): x=a
            elif z3.simplify(y-(cell-FIRST(l)),som=True).eq(z3.IntVal(0)): x,y=a,x
            elif z3.simplify(y).eq(a): x,y=a,x
            return MUL(a,y) if z3.simplify(x).eq(a) else x*y
        E.mulhook=tie; ret=E.run_fn(F,args,st); c.cover(q,"runs",[z3.BoolVal(bool(ret))])
        for s,v in ret:
            c.cover(q,"a path to the end",s.pc)
            if fn=="pointsInCell": E.oblige(s,"the number of places whose cell number lies among the descendants of the cell",toZ(E.wraps(s,v))==hi-lo,assume=False)
            else:
                ps=[x for x in(flatp(v) if sret is None else [s.mem[sret.id][(0,8)],s.mem[sret.id][(8,8)]])]
                for x,w,nm in zip(ps,(lo,hi) if fn=="cellIterators" else (lo+k,),("begin","end") if fn=="cellIterators" else ("point",)):
                    E.oblige(s,f"{nm} is the place of the "+("k-th point of the cell" if fn=="kthPoint" else "first point of the cell" if nm=="begin" else "point behind the last of the cell"),z3.And(z3.BoolVal(isinstance(x,P) and x.r is nodes),toZ(x.o)==size*w),assume=False)
        c.discharge(E,dict(target=t,level=l,cell=cell,first_cell=fc,max_cell_id=mx,n=n))
def flatp(v):
    if isinstance(v,A): return [y for x in v.v for y in flatp(x)]
    if isinstance(v,M): return [x for _,_,x in sorted(v.v,key=lambda c:c[0])]
    return [v]
def node(c,D):
    """the constructor keeps position, weight, index and cell number"""
    m=c.load(gtu(D)+f"#include <new>\nvoid verif_node(girgs::Node<{D}>*p,const std::vector<double>&x,double w,int i,int c){{ new(p) girgs::Node<{D}>(x,w,i,c); }}\nvoid verif_node0(girgs::Node<{D}>*p,const std::vector<double>&x,double w,int i){{ new(p) girgs::Node<{D}>(x,w,i); }}\n",lambda n,d:gkeep(n,d) and sym.base_name(d)!="girgs::Node::Node" or sym.base_name(d).startswith("verif_node"))
    of={k:const(m,"node_"+k) for k in("index","cell_id","weight","coord")}
    for fn in("verif_node","verif_node0"):
        E=Engine(m,name="girgs::Node::Node"); st=State(); rt.libm(E); x=[z3.Real(f"x{d}") for d in range(D)]; w=z3.Real("w"); ix,ci=z3.Ints("index cell_id"); st.pc+=[ix>=0,ix<(1<<31),ci>=0,ci<(1<<31)]
        vals=E.new_obj(st,"coordinates",{(8*d,8):R(x[d]) for d in range(D)}); vec=E.new_obj(st,"position",{(0,8):P(vals,0),(8,8):P(vals,8*D),(16,8):P(vals,8*D)}); vals.readonly=vec.readonly=True; o=E.new_obj(st,"node")
        ret=E.run_fn(c.fn(m,fn),[P(o,0),P(vec,0),R(w),I(32,ix,0,(1<<31)-1)]+([I(32,ci,0,(1<<31)-1)] if fn=="verif_node" else []),st); c.cover(E.fn_name,"return",[z3.BoolVal(bool(ret))])
        for s,v in ret:
            mem=s.mem[o.id]
            for d in range(D): E.oblige(s,f"coordinate {d} is kept",toR(E.load(s,P(o,of["coord"]+8*d),Part.dty()).t)==x[d],assume=False)
            E.oblige(s,"the weight is kept",toR(E.load(s,P(o,of["weight"]),Part.dty()).t)==w,assume=False)
            E.oblige(s,"index and cell number are kept",z3.And(toZ(E.wraps(s,E.load(s,P(o,of["index"]),Part.ity())))==ix,toZ(E.wraps(s,E.load(s,P(o,of["cell_id"]),Part.ity())))==(ci if fn=="verif_node" else 0)),assume=False)
        c.discharge(E,dict(index=ix,cell_id=ci))
def layer_lemmas(c,which):
    g=which=="g"; LB,FC,TL,N,LAY,CFP,ID=[bn(k) for k in("places_below","first_cell","level_of","cells_of_level","layer_of","cell_of","vertex_at")]
    k,n,b,e,mx,i,j,v=z3.Ints("k n begin end max_cell_id i j v"); cid=FC(LAY(v))+CFP(v); L=lambda nm,h,gl:c.lemma("lemma",nm,h,gl)
    L("the places from LB(begin) up to LB(end) are those with a cell number in [begin,end)",[0<=k,k<n,(cid<b)==(k<LB(b)),(cid<e)==(k<LB(e)),v==ID(k)],z3.And(LB(b)<=k,k<LB(e))==z3.And(b<=cid,cid<e))
    size=lambda l:N(TL(l)); order=[z3.Implies(j<i,FC(j)+size(j)<=FC(i)),z3.Implies(i<j,FC(i)+size(i)<=FC(j))] if g else [z3.Implies(i<j,FC(j)+size(j)<=FC(i)),z3.Implies(j<i,FC(i)+size(i)<=FC(j))]
    L("a cell number between those of two descendants of a layer's cell belongs to a vertex of the layer in such a cell",[j==LAY(v),0<=CFP(v),CFP(v)<size(j),0<=b,b<=e,e<=size(i),size(i)>=1,*order],z3.And(FC(i)+b<=cid,cid<FC(i)+e)==z3.And(j==i,b<=CFP(v),CFP(v)<e))
    a1=i<j; st=(FC(j+1)==FC(j)+size(j)) if g else (FC(j)==FC(j+1)+size(j+1)); nx=j+1
    L("layers do not share cell numbers (induction step)",[i<j,st,size(nx)>=1,size(j)>=1,size(i)>=1]+([FC(i)+size(i)<=FC(j)] if g else [FC(j)+size(j)<=FC(i)]),(FC(i)+size(i)<=FC(nx)) if g else (FC(nx)+size(nx)<=FC(i)))
    L("layers do not share cell numbers (neighbours)",[FC(i+1)==FC(i)+size(i)] if g else [FC(i)==FC(i+1)+size(i+1)],FC(i)+size(i)<=FC(i+1) if g else FC(i+1)+size(i+1)<=FC(i))
    x,q,a,d,m_=z3.Ints("x q a descendants m")
    L("the descendants of cell a on the insertion level are those whose number divided by the number of descendants is a",[d>=1,x>=0,q*d<=x,x<q*d+d,z3.Implies(q<a,q*d+d<=a*d),z3.Implies(a<q,a*d+d<=q*d)],z3.And(a*d<=x,x<a*d+d)==(q==a))
    L("a smaller factor gives a smaller product",[d>=1,q+1<=a,(a-q-1)*d>=0],q*d+d<=a*d)
    L("the last descendant is a cell of the insertion level",[d>=1,a>=0,a<m_,(m_-a-1)*d>=0],a*d+d<=m_*d)
    for D in range(1,6) if g else (1,): L(f"cells and descendants, D={D}",[],z3.And(*[z3.IntVal(1<<(D*l))*z3.IntVal(1<<(D*(t-l)))==(1<<(D*t)) for t in range(31//D+1) for l in range(t+1)]))
    if g:
        w,w0,p,p1=z3.Reals("w w0 two_i two_i1"); lg=rfun("log2",1); y=w/w0
        L("layer i holds the weights in [2^i w0, 2^(i+1) w0)",[w0>0,w>=w0,(y>=p)==(lg(y)>=z3.ToReal(i)),(y>=p1)==(lg(y)>=z3.ToReal(i+1)),y*w0==w,(y>=p)==(w>=p*w0),(y>=p1)==(w>=p1*w0)],(z3.ToInt(lg(y))==i)==z3.And(w>=p*w0,w<p1*w0)); u=z3.Real("y")
        L("the same as a comparison of products",[w0>0,u*w0==w],(u>=p)==(w>=p*w0))
    else:
        R_,r,h,y=z3.Reals("R r layer_height y")
        L("layer i holds the radii in (R-(i+1)h, R-ih]",[h>0,r<=R_,y*h==R_-r,(y>=z3.ToReal(i))==(R_-r>=z3.ToReal(i)*h),(y>=z3.ToReal(i+1))==(R_-r>=z3.ToReal(i+1)*h)],(z3.ToInt(y)==i)==z3.And(r<=R_-z3.ToReal(i)*h,r>R_-z3.ToReal(i+1)*h)); z=z3.Real("i_real")
        L("the same as a comparison of products",[h>0,y*h==R_-r],(y>=z)==(R_-r>=z*h))
