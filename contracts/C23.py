"""C23 conversions between hyperbolic and GIRG coordinates."""
from vlib.prove import *
from vlib.spec import *
from vlib import rt
Q="girgs::"
TU="""#include <cmath>
#include <girgs/Hyperbolic.h>
double verif_r2w(double r,double R){ return girgs::radiusToGirgWeight(r,R); }
double verif_w2r(double w,double R,double s){ return girgs::girgWeightToRadius(w,R,s); }
double verif_w2r1(double w,double R){ return girgs::girgWeightToRadius(w,R); }
double verif_a2p(double a){ return girgs::angleToGirgPosition(a); }
double verif_p2a(double p){ return girgs::girgPositionToAngle(p); }
double verif_rwr(double r,double R){ return girgs::girgWeightToRadius(girgs::radiusToGirgWeight(r,R),R); }
double verif_wrw(double w,double R){ return girgs::radiusToGirgWeight(girgs::girgWeightToRadius(w,R),R); }
double verif_apa(double a){ return girgs::girgPositionToAngle(girgs::angleToGirgPosition(a)); }
double verif_pap(double p){ return girgs::angleToGirgPosition(girgs::girgPositionToAngle(p)); }
"""
def jobs(tier): return [("conversions","conv",{})]
def conv(c):
    m=c.load(TU,lambda n,d: n.startswith("_Z") and "verif_" in d or d.startswith("verif_"))
    EXP=rfun("exp",1); LOG=rfun("log",1); pi=toZ(PI_D); r,Rr,w,s,a,p,r2=z3.Reals("r R w s a p r2")
    def mf(eng,st,name,xs,res):
        # exp and log as real functions: inverse to each other, exp positive and increasing
        if name=="exp": st.pc+=[res>0,LOG(res)==xs[0]]
        if name=="log": st.pc+=[z3.Implies(xs[0]>0,EXP(res)==xs[0])]
    def run(fn,args,pre,goals):
        E=Engine(m,name=Q+fn[1]); rt.libm(E,mf); st=State(); st.pc+=pre
        out=E.run_fn(c.fn(m,"verif_"+fn[0]),[R(x) for x in args],st); c.cover(Q+fn[1],fn[0],[z3.BoolVal(bool(out))]+(out[0][0].pc if out else []))
        for s_,v in out:
            for nm,g in goals(toR(v.t)): E.oblige(s_,nm,g,assume=False)
        c.discharge(E,dict(r=r,R=Rr,w=w,s=s,a=a,p=p))
    W,RW,AP,PA="radiusToGirgWeight","girgWeightToRadius","angleToGirgPosition","girgPositionToAngle"
    run(("r2w",W),[r,Rr],[EXP((Rr-r)/2)>0],lambda v:[("the weight of radius r is exp((R-r)/2)",v==EXP((Rr-r)/2)),("the weight is positive",v>0)])
    run(("w2r",RW),[w,Rr,s],[w>0,s>0],lambda v:[("the radius of weight w with scaling s is R-2 ln(w/s)",v==Rr-2*LOG(w/s))])
    run(("w2r1",RW),[w,Rr],[w>0],lambda v:[("without scaling the radius is R-2 ln w",v==Rr-2*LOG(w))])
    run(("rwr",W),[r,Rr],[],lambda v:[("radius to weight and back is the identity",v==r)])
    run(("wrw",RW),[w,Rr],[w>0],lambda v:[("weight to radius and back is the identity",v==w)])
    run(("a2p",AP),[a],[a>=0,a<2*pi],lambda v:[("the position of an angle is angle/(2 pi)",v*(2*pi)==a),("angles of the circle map into [0,1)",z3.And(v>=0,v<1))])
    run(("p2a",PA),[p],[p>=0,p<1],lambda v:[("the angle of a position is position*2 pi",v==p*(2*pi)),("positions map into the circle",z3.And(v>=0,v<2*pi))])
    run(("apa",AP),[a],[],lambda v:[("angle to position and back is the identity",v==a)])
    run(("pap",PA),[p],[],lambda v:[("position to angle and back is the identity",v==p)])
    c.lemma("lemma","larger radii give smaller weights (exp is increasing)",[r<r2,z3.Implies((Rr-r2)/2<(Rr-r)/2,EXP((Rr-r2)/2)<EXP((Rr-r)/2))],EXP((Rr-r2)/2)<EXP((Rr-r)/2))
    a2=z3.Real("a2"); c.lemma("lemma","the position of an angle is monotone",[a<a2],a/(2*pi)<a2/(2*pi))
def replay(N,refuted,unknown,errors):
    N.drive("conv.cpp",[N.seed,200000 if N.tier=="quick" else 20000000],what="round trips, formulas, monotonicity and ranges of the four conversions in floating point")
RULE="radii, weights, angles and positions converted; all non-trivial"
LEVEL="proof"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic; exp and log are inverse functions, exp positive and increasing"]
EXPLANATION="Each conversion function is proved to compute its formula for all arguments, and each composition of two of them (both bodies executed together) to be the identity; ranges and monotonicity as postconditions and lemmas. Rounding is covered by the bounded native driver only."
