"""C09 threshold GIRGs have exactly the edges of the model."""
from contracts.gtree import *
from contracts import gsample, C04
KS=((True,True),(True,False),(False,True),(False,False))
def jobs(tier):
    r=[]
    for D in (5,4,3,2,1):
        r+=[(f"sampleTypeI D={D} {ks}","typeI",dict(D=D,cases=ks)) for ks in(KS[:2],KS[2:])]
        r+=[(f"sampleTypeII D={D}","typeII",dict(D=D)),(f"Node::distance D={D}","node",dict(D=D))]
    return r+[("lemmas","lemmas",{})]
def typeI(c,D,cases): focus('outcome'); gsample.typeI(c,D,cases,inf=True,count=False)
def typeII(c,D): focus('outcome'); gsample.typeII(c,D,inf=True)
def node(c,D): C04.node(c,D)
def lemmas(c): far_lemmas(c)
def far_lemmas(c):
    """cells that do not touch on a level l <= p=PBL(i,j) contain no pair that can be connected in the threshold model"""
    a,b,n=z3.Ints("a b n"); u,v=z3.Reals("u v"); N=z3.ToReal(n)
    c.lemma("lemma","cells that do not touch: in the coordinate that shows it, their points are at least one cell width apart",[n>=1,0<=a,a<n,0<=b,b<n,z3.ToReal(a)<=u,u<z3.ToReal(a+1),z3.ToReal(b)<=v,v<z3.ToReal(b+1),circ(a,b,n)>=2],circr(u,v,N)>=1)
    a,b,x,y,X,Y=z3.Reals("a b x y X Y")
    c.lemma("lemma","powers are monotone (step of the induction over the dimension)",[0<=a,a<=b,0<=X,X<=Y],a*X<=b*Y)
    l,p,B,i,j,D=z3.Ints("l p B i j D")
    for d in range(1,6):
        q=z3.If(B-i-j-2>=0,(B-i-j-2)/d,-((-(B-i-j-2))/d)); pb=z3.If(q>0,q,0)
        c.lemma("lemma",f"on a level with more than one cell the comparison level satisfies D*p <= B-i-j-2 (D={d})",[i>=0,j>=0,p==pb,1<=l,l<=p],z3.And(d*l<=d*p,d*p+i+j+2<=B))
    W,w0,P2,Pp,PB,Pij,w1,w2,Wi,Wj,dD=z3.Reals("W w0 P2 Pp PB Pij w1 w2 Wi Wj dD")
    # Pp=2^(D*p), Pij=2^(i+1)*2^(j+1), PB=2^B with 2^B <= W/w0^2 (contract of the constructor, C06), Pp*Pij<=PB
    c.lemma("lemma","the group's largest possible product is at most the volume of a cell",[W>0,w0>0,Pp>0,Pij>0,PB>0,Pp*Pij<=PB,PB*(w0*w0)<=W,PB*(w0*w0)>=(Pp*Pij)*(w0*w0)],Pp*(Pij*(w0*w0))<=W)
    U=z3.Real("U"); V=z3.Real("V")
    c.lemma("lemma","hence no pair in cells that do not touch is connected: w_u*w_v/W < U/W <= 2^(-D*p) <= 2^(-D*l) <= dist^D",[W>0,Pp>0,U>0,V>0,w1>0,w2>0,w1*w2<U,Pp*U<=W,V*Pp>=1,dD>=V,V*W>=V*(Pp*U),V*(Pp*U)>=U,dD*W>=V*W],z3.Not(dD<w1*w2/W))
def replay(N,refuted,unknown,errors):
    sc=1 if N.tier=="quick" else 20
    N.drive("girg.cpp",["threshold",N.seed,sc],defs=["NDEBUG"],repo_sources=["source/girgs/source/Generator.cpp","source/girgs/source/WeightScaling.cpp"],what="edge sets of the real generator with alpha=infinity against the quadratic oracle, random weights (power law, equal, with hubs) and positions (uniform, clustered, on cell borders), D=1..5, 1..9 threads",timeout=300)
RULE="graphs generated; non-trivial if the tree has more than one level"
LEVEL="proof"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic (pairs whose distance^D equals the threshold up to rounding may fall on either side)","every pair whose cells touch on all levels down to its comparison level is decided exactly once (C07)","comparison levels as in C06, index as in C13, edge buffering as in C19","pow(x,infinity) is 0 for x<1 and 1 for x=1"]
EXPLANATION="sampleTypeI is proved to report a decided pair exactly if dist^D < w_u*w_v/W when alpha is infinite (loop invariants over the decision automaton, all sizes); sampleTypeII is proved to drop a group only if its skipping bound is 0 or below, and otherwise to hand it to sampleTypeI; lemmas over the contracts show that pairs whose cells do not touch on a level at or above the comparison level are never edges."
