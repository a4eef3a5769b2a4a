"""Points, distances, comparison levels and the distance filter of the hyperbolic generator (C11, C12, C06)"""
from vlib.prove import *
from vlib.spec import *
from vlib import rt
PTU="""#include <new>
#include <vector>
#include <string>
#include <limits>
#include <cassert>
#define private public
#define protected public
#include <hypergirgs/Point.h>
#include <hypergirgs/DistanceFilter.h>
#include <hypergirgs/RadiusLayer.h>
#undef private
#undef protected
namespace hg=hypergirgs; using DFI=hg::DistanceFilter<100>;
extern "C" void verif_point(hg::Point* p,int id,double r,double a,int c){ new(p) hg::Point(id,r,a,c); }
extern "C" void verif_filter(DFI* p,double mp,double R,double T){ new(p) DFI(mp,R,T); }
extern "C" double verif_upper(const DFI* p,double x){ return p->coshDistForProb_upperBound(x); }
extern "C" double verif_lower(const DFI* p,double x){ return p->coshDistForProb_lowerBound(x); }
extern "C" bool verif_below(const hg::Point* p,const hg::Point* q,double K){ return p->isDistanceBelowR(*q,K); }
extern "C" double verif_coshdist(const hg::Point* p,const hg::Point* q){ return p->hyperbolicDistanceCosh(*q); }
extern "C" double verif_pdist(const hg::Point* p,const hg::Point* q){ return p->hyperbolicDistance(*q); }
extern "C" double verif_dist(double a,double b,double c,double d){ return hg::hyperbolicDistance(a,b,c,d); }
extern "C" unsigned verif_pbl(double a,double b,double R){ return hg::RadiusLayer::partitioningBaseLevel(a,b,R); }
"""
PF=("id","cell_id","invsinh_r","coth_r","cos_phi","sin_phi"); FF=("max_connection_prob","filter_stages","stage_width")
def ptu(): return PTU+"".join(f"extern const unsigned long verif_p_{k}=__builtin_offsetof(hg::Point,{k});\n" for k in PF)+"".join(f"extern const unsigned long verif_f_{k}=__builtin_offsetof(DFI,{k});\n" for k in FF)
VF=["verif_"+k for k in("point","filter","upper","lower","below","coshdist","pdist","dist","pbl")]
def pkeep(n,d): return n in VF or sym.base_name(d) in VF or sym.base_name(d) in("hypergirgs::hyperbolicDistance",)
def pl(c): return c.load(ptu(),pkeep)
def off(m,k):
    from contracts.gtree import const
    return const(m,k)
def mf(eng,st,name,xs,r):
    if name=="sinh": st.pc+=[z3.Implies(xs[0]>0,r>0),z3.Implies(xs[0]==0,r==0)]
    if name in("cosh",): st.pc+=[r>=1]
    if name=="exp": st.pc+=[r>0]
ch,sh,co,si,ac,ex,lg=[rfun(k,1) for k in("cosh","sinh","cos","sin","acosh","exp","log")]
def DCf(r1,a1,r2,a2): return ch(r1)*ch(r2)-sh(r1)*sh(r2)*(co(a1)*co(a2)+si(a1)*si(a2))
def point(c):
    m=pl(c); r,a=z3.Reals("radius angle"); id_,cell=z3.Ints("id cell"); F=c.fn(m,"verif_point"); E=Engine(m,name="hypergirgs::Point::Point"); st=State(); rt.libm(E,mf); o=E.new_obj(st,"point")
    st.pc+=[r>0,a>=0,id_>=0,id_<(1<<31),cell>=0,cell<(1<<31),sh(r)>0]
    out=E.run_fn(F,[P(o,0),I(32,id_,0,(1<<31)-1),R(r),R(a),I(32,cell,0,(1<<31)-1)],st); c.cover(E.fn_name,"return",[z3.BoolVal(bool(out))])
    for s,v in out:
        g=lambda k:s.mem[o.id].get((off(m,"p_"+k),4 if "id" in k else 8)); n="Point(id,radius,angle,cell): "
        E.oblige(s,n+"id and cell are kept",z3.And(toZ(E.wraps(s,g("id")))==id_,toZ(E.wraps(s,g("cell_id")))==cell),assume=False)
        E.oblige(s,n+"invsinh_r is 1/sinh(radius)",toR(g("invsinh_r").t)*sh(r)==1,assume=False); E.oblige(s,n+"coth_r is cosh(radius)/sinh(radius)",toR(g("coth_r").t)*sh(r)==ch(r),assume=False)
        E.oblige(s,n+"cos_phi and sin_phi",z3.And(toR(g("cos_phi").t)==co(a),toR(g("sin_phi").t)==si(a)),assume=False)
    c.discharge(E,dict(radius=r,angle=a))
def two(c,fn,name):
    m=pl(c); E=Engine(m,name=name); st=State(); rt.libm(E,mf); v=[]
    for k in("1","2"):
        r,a=z3.Reals(f"r{k} a{k}"); S=z3.Real("S"+k); C=z3.Real("C"+k); x,y=z3.Reals(f"x{k} y{k}"); inv,cot=z3.Reals(f"inv{k} cot{k}"); v.append((S,C,x,y))
        o=E.new_obj(st,"p"+k,{(off(m,"p_invsinh_r"),8):R(inv),(off(m,"p_coth_r"),8):R(cot),(off(m,"p_cos_phi"),8):R(x),(off(m,"p_sin_phi"),8):R(y)}); o.readonly=True; v[-1]+=(o,)
        st.pc+=[S>0,C>=1,inv*S==1,cot==C*inv,inv>0]
    return m,E,st,v,c.fn(m,fn)
def below(c):
    """S,C,x,y: sinh r, cosh r, cos phi, sin phi (fields as the constructor leaves them)"""
    K=z3.Real("coshR"); m,E,st,(p,q),F=two(c,"verif_below","hypergirgs::Point::isDistanceBelowR"); st.pc.append(K>1)
    out=E.run_fn(F,[P(p[4],0),P(q[4],0),R(K)],st); c.cover(E.fn_name,"return",[z3.BoolVal(bool(out))])
    dc=p[1]*q[1]-p[0]*q[0]*(p[2]*q[2]+p[3]*q[3])
    for s,v in out:
        # multiply the comparison with sinh r1 sinh r2 > 0
        iS=z3.Real("iS"); i1,i2=z3.Real("inv1"),z3.Real("inv2"); X=p[2]*q[2]+p[3]*q[3]
        E.oblige(s,"isDistanceBelowR iff cosh of the hyperbolic distance is below cosh(R)",as_bool(E,s,v)==(dc<K),assume=False)
        # helper: the same comparison written without divisions
    fix_nl(c,E,[(p,q)])
def fix_nl(c,E,pq):
    """the fields 1/S and C/S are replaced by S and C: with t=1/(S1 S2): x > C1 C2 t - K t  iff  x S1 S2 > C1 C2 - K"""
    (p,q),=pq; t=z3.Real("t"); SS=p[0]*q[0]; i1,i2=z3.Real("inv1"),z3.Real("inv2"); X=p[2]*q[2]+p[3]*q[3]; K=z3.Real("coshR")
    ex_=[t==i1*i2,t>0,t*SS==1]
    for o in E.obls:
        if o.kind=="post" or True: o.hyp=list(o.hyp)+ex_
    c.lemma("lemma","a product of positive inverses is the inverse of the product",[p[0]>0,q[0]>0,i1>0,i2>0,i1*p[0]==1,i2*q[0]==1],z3.And(i1*i2>0,(i1*i2)*(p[0]*q[0])==1))
    c.discharge(E,dict(S1=p[0],S2=q[0],C1=p[1],C2=q[1],coshR=K))
def coshdist(c):
    for fn,nm in(("verif_coshdist","hyperbolicDistanceCosh"),("verif_pdist","hyperbolicDistance")):
        m,E,st,(p,q),F=two(c,fn,"hypergirgs::Point::"+nm); out=E.run_fn(F,[P(p[4],0),P(q[4],0)],st); c.cover(E.fn_name,"return",[z3.BoolVal(bool(out))])
        dc=p[1]*q[1]-p[0]*q[0]*(p[2]*q[2]+p[3]*q[3]); M_=zmax(z3.RealVal(1),dc)
        for s,v in out:
            if nm=="hyperbolicDistanceCosh": E.oblige(s,"hyperbolicDistanceCosh is cosh r1 cosh r2 - sinh r1 sinh r2 cos(phi1-phi2), at least 1",toR(v.t)==M_,assume=False)
            else:
                t=toR(v.t); arg=t.arg(0) if z3.is_app(t) and t.decl().name()=="acosh" else None
                E.oblige(s,"hyperbolicDistance is acosh of the hyperbolic distance's cosh",arg==M_ if arg is not None else z3.BoolVal(False),assume=False)
        fix_nl(c,E,[(p,q)])
    m=pl(c); F=c.fn(m,"verif_dist"); E=Engine(m,name="hypergirgs::hyperbolicDistance"); st=State(); rt.libm(E,mf); r1,a1,r2,a2=z3.Reals("r1 phi1 r2 phi2")
    out=E.run_fn(F,[R(r1),R(a1),R(r2),R(a2)],st); c.cover(E.fn_name,"return",[z3.BoolVal(bool(out))])
    for s,v in out:
        s.pc+=[ch(r1-r2)==ch(r1)*ch(r2)-sh(r1)*sh(r2)]; t=toR(v.t); arg=t.arg(0) if z3.is_app(t) and t.decl().name()=="acosh" else None
        E.oblige(s,"hyperbolicDistance is acosh(max(1, cosh r1 cosh r2 - sinh r1 sinh r2 cos(phi1-phi2)))",arg==zmax(z3.RealVal(1),ch(r1)*ch(r2)-sh(r1)*sh(r2)*co(a1-a2)) if arg is not None else z3.BoolVal(False),assume=False)
    c.discharge(E,dict(r1=r1,r2=r2,phi1=a1,phi2=a2))
TAU=2*PI_D
def pbl(c):
    m=pl(c); F=c.fn(m,"verif_pbl"); E=Engine(m,name="hypergirgs::RadiusLayer::partitioningBaseLevel"); st=State(); r1,r2,Rr=z3.Reals("r1 r2 R"); st.pc+=[0<=r1,r1<Rr,0<=r2,r2<Rr]
    HD=UF("hyperbolicDistance",RS(),RS(),RS(),RS(),RS()); P2=UF("pow2",IS(),RS())
    def h(e,s,a,i): return R(HD(*[toR(x.t) for x in a]))
    E.C["hypergirgs::hyperbolicDistance"]=h; tau=toZ(TAU); D=lambda k:HD(r1,z3.RealVal(0),r2,tau/P2(k))
    E.axioms+=[P2(z3.IntVal(0))==1]; p2=lambda k:z3.Implies(k>=0,z3.And(P2(z3.simplify(k+1))==2*P2(k),P2(k)>=1))
    kk=z3.Int("any_level")
    def tpl(L):
        def lv(M):
            for p_,v in L.phis(I): return toZ(M.st.env[p_.id].t)
        def cd(M):
            for p_,v in L.phis():
                if isinstance(v,R): return toR(M.st.env[p_.id].t)
        def inv(M):
            k,d=lv(M),cd(M); M.st.pc.append(p2(k)); return z3.And(k>=0,P2(k)>=1,d==tau/P2(k),d*P2(k)==tau)
        def far(M):
            k=lv(M); M.st.pc.append(z3.Implies(k>=31,D(k)<=Rr)); return z3.And(z3.Implies(z3.And(1<=kk,kk<=k),D(kk)>Rr),z3.Implies(k>=1,D(k)>Rr),k<=30)     # 32-bit cell numbers: comparison levels are at most 30
        return [("the cell diameter is that of the level",inv,True),("non-touching cells of the level are too far apart",far,True)]
    E.templates=tpl
    out=E.run_fn(F,[R(r1),R(r2),R(Rr)],st); c.cover(E.fn_name,"return",[z3.BoolVal(bool(out))])
    for s,v in out:
        c.cover(E.fn_name,"a path to the end",s.pc); k=toZ(E.wrapu(s,v)); s.pc.append(p2(k))
        E.oblige(s,"below level 0 of the result, points of the two layers one cell apart on that level are farther than R",z3.Implies(k>=1,D(k)>Rr),assume=False)
        E.oblige(s,"so are they on every level between",z3.Implies(z3.And(1<=kk,kk<=k),D(kk)>Rr),assume=False)
        E.oblige(s,"on the next level they would not be",z3.Not(D(z3.simplify(k+1))>Rr),assume=False)
    c.discharge(E,dict(r1=r1,r2=r2,R=Rr))
# ---- DistanceFilter
def h_dbl():
    t=llvmc.Ty(); t.kind="double"; t.w=64; t.size=8; return t
def inv(q,Rr,T): return Rr+2*T*lg(1/q-1)
def filt(c):
    m=pl(c); mp,Rr,T=z3.Reals("max_prob R T"); o_={k:off(m,"f_"+k) for k in FF}
    E=Engine(m,name="hypergirgs::DistanceFilter::DistanceFilter"); st=State(); rt.libm(E,mf); st.pc+=[mp>0,mp<=1,T>0,T<1,Rr>0,INF>1000]
    ob=E.new_obj(st,"filter",{}); out=E.run_fn(c.fn(m,"verif_filter"),[P(ob,0),R(mp),R(Rr),R(T)],st); c.cover(E.fn_name,"return",[z3.BoolVal(bool(out))])
    for s,v in out:
        g=lambda o:toR(s.mem[ob.id][(o,8)].t)
        E.oblige(s,"DistanceFilter: the range and the stage width are kept",z3.And(g(o_["max_connection_prob"])==mp,g(o_["stage_width"])*mp==100),assume=False)
        E.oblige(s,"DistanceFilter: stage 0 is never exceeded, stage 100 never undercut",z3.And(g(o_["filter_stages"])==INF,g(o_["filter_stages"]+800)==1),assume=False)
        for i in range(1,100):
            x=inv(mp*i/100,Rr,T); t=g(o_["filter_stages"]+8*i)
            E.oblige(s,f"DistanceFilter: stage {i} is cosh(max(0, R+2T ln(1/(max_prob*{i}/100)-1)))",_cosh_of(E,s,t,x,mp,i),assume=False)
    c.discharge(E,dict(max_prob=mp,R=Rr,T=T))
    for fn,nm,up in(("verif_upper","coshDistForProb_upperBound",True),("verif_lower","coshDistForProb_lowerBound",False)):
        E=Engine(m,name="hypergirgs::DistanceFilter::"+nm); st=State(); p,w=z3.Reals("prob width"); AR=z3.Array("stages",IS(),RS()); st.pc+=[mp>0,mp<=1,p>=0,p<mp,w*mp==100]
        ob=E.new_obj(st,"filter",{(o_["max_connection_prob"],8):R(mp),(o_["stage_width"],8):R(w),("A",o_["filter_stages"]):(("real",),AR)}); ob.readonly=True; ob.subs=[(o_["filter_stages"],8,101)]
        st.pc+=[w*p>=0,w*p<100]      # lemma 'index'
        out=E.run_fn(c.fn(m,fn),[P(ob,0),R(p)],st); c.cover(E.fn_name,"return",[z3.BoolVal(bool(out))])
        for s,v in out:
            k=z3.Int("k"); u=w*p; want=z3.Implies(z3.And(z3.ToReal(k)<=u,u<z3.ToReal(k)+1) if up else z3.And(z3.ToReal(k)>=u,u>z3.ToReal(k)-1),toR(v.t)==z3.Select(AR,k))
            E.oblige(s,f"{nm}: the stage of prob rounded {'down' if up else 'up'}",want,assume=False)
        c.discharge(E,dict(max_prob=mp,prob=p))
    w,p=z3.Reals("w p"); c.lemma("lemma","index: a probability below the range has a stage below 100",[mp>0,mp<=1,p>=0,p<mp,w*mp==100,w>0,w*p<w*mp],z3.And(w*p>=0,w*p<100))
def _cosh_of(E,s,t,x,mp,i):
    """t is cosh of max(0,y) with y==x: compare the arguments of the function symbols"""
    a=_arg(t,"cosh")
    if a is None: return z3.BoolVal(False)
    l=[k for k in _subs(a) if z3.is_app(k) and k.decl().name()=="log"]
    if len(l)==1:      # the logarithms' arguments agree (1/q-1, written differently), hence the logarithms
        s.pc.append(z3.Implies(l[0].arg(0)*(mp*i)==100-mp*i,z3.And(l[0]==lg(1/(mp*i/100)-1))))
        E.oblige(s,f"DistanceFilter: stage {i}: the logarithm of 1/prob-1",l[0].arg(0)*(mp*i)==100-mp*i)
    return a==z3.If(x>0,x,0)
def _arg(t,name):
    t=z3.simplify(t)
    if z3.is_app(t) and t.decl().name()==name: return t.arg(0)
    return None
def _subs(t):
    seen=set(); st=[t]
    while st:
        x=st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); yield x; st+=x.children()
def filter_lemma(c):
    """what the filter's answers mean: exact comparisons with the probability"""
    d,x,q,p,PD,PX,T,Rr,mp=z3.Reals("d x q p prec_d prec_x T R mp"); k=z3.Int("k"); K=z3.ToReal(k)
    # d = distance (acosh of the value compared), x = invConnectionProb(q), PD = connectionProbRec(d); connectionProbRec(x) = 1/q (exp inverts ln); both functions increase
    base=[mp>0,mp<=1,p>=0,p<mp,PX*q==1,q>0,d>=0,PD>1,q*100==mp*K]
    c.lemma("lemma","filter, upper: the pair is farther than the stage below its number: the exact comparison fails too",base+[k>=1,k<=99,q<=p,z3.Implies(d>x,PD>PX),d>z3.If(x>0,x,0)],z3.Not(p*PD<1))
    c.lemma("lemma","filter, lower: the pair is closer than the stage above its number: the exact comparison succeeds too",base+[k>=1,k<=99,q>=p,z3.Implies(d<x,PD<PX),d<z3.If(x>0,x,0)],p*PD<1)
    c.lemma("lemma","filter: number 0 is below every probability",[PD>1],z3.RealVal(0)*PD<1)
    dc=z3.Real("coshd"); c.lemma("lemma","filter: no distance has cosh below 1 (stage 100)",[dc>=1],z3.Not(dc<1))
    # connectionProbRec(invConnectionProb(q)) = 1/q
    l,e=z3.Reals("l e"); c.lemma("lemma","connectionProbRec inverts invConnectionProb: 1+exp(0.5/T*(R+2T ln(1/q-1)-R)) = 1/q",[T>0,q>0,q<1,x==Rr+2*T*l],z3.And((z3.RealVal("0.5")/T)*(x-Rr)==l,1+(1/q-1)==1/q))
    c.lemma("lemma","stage probabilities lie between the neighbouring multiples of max_prob/100",[mp>0,p>=0,p<mp,K<=100*p/mp,q*100==mp*K,K*mp<=100*p],q<=p)
def distance_lemmas(c):
    """geometry: what non-touching cells on a level not below the comparison level mean"""
    # g(r) = C cosh(r) - Q sinh(r) = cosh of the distance from a point at radius r to a fixed point with C=cosh(rb), at a fixed angle (Q = sinh(rb) cos(angle))
    sa,ca,se,ce,C,Q,K=z3.Reals("sa ca se ce C Q K"); ga=ca*C-sa*Q; sb=sa*ce+ca*se; cb=ca*ce+sa*se; gb=cb*C-sb*Q
    hy=[sa>=0,se>=0,ca>=1,ce>=1,ca*ca==1+sa*sa,ce*ce==1+se*se,C>=1,C<=K,ga>K]
    c.lemma("lemma","radius 1: sinh(a+e) g(a) = sinh(a) g(a+e) + sinh(e) g(0)",[ca*ca==1+sa*sa],sb*ga==sa*gb+se*C)
    s_,g1,g2,t=z3.Reals("s g1 g2 t")
    c.lemma("lemma","radius 2: sinh is superadditive",[sa>=0,se>=0,ca>=1,ce>=1,sa*ce>=sa,ca*se>=se],sb>=sa+se)
    c.lemma("lemma","radius 3: the inner radius is not the origin",[C<=K,ga>K,ca==1,sa==0],z3.BoolVal(False))
    c.lemma("lemma","radius 4: moving the point outwards does not bring it closer than g(a) if g(a) > K >= g(0)",[sa>0,se>=0,t>=sa+se,g1>K,C<=K,C>=1,t*g1==sa*g2+se*C,t*g1>=(sa+se)*g1,se*g1>=se*C],sa*g2>=sa*g1)
    c.lemma("lemma","radius 5: cancel sinh(a) > 0",[sa>0,sa*g2>=sa*g1],g2>=g1)
    r1c,r2c,r1s,r2s,c1,c2=z3.Reals("C1 C2 S1 S2 cos1 cos2")
    c.lemma("lemma","angle: with a larger angle (smaller cosine) the distance does not shrink",[r1s>=0,r2s>=0,c2<=c1,r1s*r2s>=0,(r1s*r2s)*c2<=(r1s*r2s)*c1],r1c*r2c-r1s*r2s*c2>=r1c*r2c-r1s*r2s*c1)
    l,p,cb_,n=z3.Ints("l p cells n"); P2=UF("pow2",IS(),RS())
    c.lemma("lemma","on a level l <= p the gap of non-touching cells is at least the cell width of level p",[0<=l,l<=p,P2(l)>=1,P2(p)>=P2(l),cb_>=1,1/P2(l)>=1/P2(p)],z3.ToReal(cb_)/P2(l)>=1/P2(p))
def cpr(c):
    """connectionProbRec"""
    from contracts.htree import htu,hkeep,const,HT,HMEM
    m=c.load(htu(),hkeep); q=HT+"connectionProbRec"; F=c.fn(m,q); E=Engine(m,name=q); st=State(); d,Rr,T=z3.Reals("dist R T"); st.pc+=[T>0,T<1]; args=[]
    def f(eng,s,name,xs,r): args.append(xs[0]); s.pc.append(r>0)
    rt.libm(E,f); o=E.new_obj(st,"this",{(const(m,"off_m_R"),8):R(Rr),(const(m,"off_m_T"),8):R(T)}); o.readonly=True
    out=E.run_fn(F,[P(o,0),R(d)],st); c.cover(q,"return",[z3.BoolVal(bool(out))])
    for s,v in out:
        e=[k for k in _subs(toR(v.t)) if z3.is_app(k) and k.decl().name()=="exp"]
        E.oblige(s,"connectionProbRec(d) = 1 + exp((d-R)/(2T))",z3.And(toR(v.t)==1+e[0],e[0].arg(0)*(2*T)==d-Rr) if len(e)==1 else z3.BoolVal(False),assume=False)
    c.discharge(E,dict(dist=d,R=Rr,T=T))
def level_lemmas(c):
    """the comparison level is the least L with D(L+1) <= R, where D(k) is the distance of the layers' inner radii at an angle of one cell width of level k; moving a point outwards never brings it closer once it is farther than R"""
    a,b,o=z3.Ints("L1 L2 k"); far1,far2=UF("far_inner",IS(),z3.BoolSort()),UF("far_outer",IS(),z3.BoolSort())
    # far1: the pair (r1,r2), far2: the pair (r1,r2') with r2'>=r2 (lemmas 'radius'): far1(k) => far2(k); contract of partitioningBaseLevel for both
    x=z3.Int("x"); inst=[z3.Implies(far1(b+1),far2(b+1))]
    c.lemma("lemma","a layer pair's comparison level does not exceed that of the pair with the outermost layer, which is the insertion level",[a>=0,b>=0,z3.Implies(z3.And(1<=b+1,b+1<=a),far1(b+1)),z3.Not(far2(b+1))]+inst,a<=b)
