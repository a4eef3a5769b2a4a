"""C04 GIRG grid geometry: touching, dist and Node::distance on the torus."""
from vlib.prove import *
from vlib.spec import *
from contracts.C02 import GT
H="girgs::SpatialTreeCoordinateHelper::"
NT="""#include <vector>
#include <algorithm>
#include <cmath>
#include <girgs/Node.h>
template struct girgs::Node<%d>;
"""
def jobs(tier):
    j=[]
    for D in range(1,6): j.append((f"touching D={D}","cells",dict(D=D,what="touching"))); j.append((f"dist D={D}","cells",dict(D=D,what="dist"))); j.append((f"Node::distance D={D}","node",dict(D=D)))
    j.append(("lemmas","lemmas",{}))
    return j
def cells(c,D,what):
    q=H+what; m=c.load(GT%D,[H+"cellOfLevel",q,"girgs::BitManipulationDetails::Generic::Implementation::extract"])
    for l in range(maxlevel(D)+1):
        E=Engine(m,name=q,contracts={H+"cellOfLevel":h_cellOfLevel(D,l),"girgs::BitManipulationDetails::Generic::Implementation::extract":h_extract(D,l)}); st=State()
        a=E.sym_int(st,"cellA",32,first(D,l),first(D,l+1)-1); b=E.sym_int(st,"cellB",32,first(D,l),first(D,l+1)-1)
        out=E.run_fn(c.fn(m,q),[a,b,I(32,l)],st); c.cover(q,f"level {l}",[z3.BoolVal(bool(out))])
        ca=[EXT(D,d)(a.t-first(D,l)) for d in range(D)]; cb=[EXT(D,d)(b.t-first(D,l)) for d in range(D)]
        cd=[circ(x,y,1<<l) for x,y in zip(ca,cb)]
        for s,v in out:
            if what=="touching": E.oblige(s,f"touching iff every coordinate differs by at most one cell around the torus (D={D}, level {l})",as_bool(E,s,v)==z3.And(*[x<=1 for x in cd]),assume=False)
            else: E.oblige(s,f"dist is the gap between the cells in the max norm (D={D}, level {l})",toR(v.t)*(1<<l)==z3.ToReal(zmax(*cd,z3.IntVal(1))-1),assume=False)
        inp=dict(D=D,level=l)
        for d in range(D): inp[f"a{d}"]=ca[d]; inp[f"b{d}"]=cb[d]
        c.discharge(E,inp)
def node(c,D):
    q="girgs::Node::distance"; m=c.load(NT%D,[q]); E=Engine(m,name=q); st=State()
    x=[z3.Real(f"x{d}") for d in range(D)]; y=[z3.Real(f"y{d}") for d in range(D)]
    st.pc+=[z3.And(t>=0,t<1) for t in x+y]
    A_=E.new_obj(st,"this",{(8*d,8):R(x[d]) for d in range(D)}); B_=E.new_obj(st,"other",{(8*d,8):R(y[d]) for d in range(D)}); A_.readonly=B_.readonly=True
    out=E.run_fn(c.fn(m,q),[P(A_,0),P(B_,0)],st); c.cover(q,"return",[z3.BoolVal(bool(out))])
    for s,v in out: E.oblige(s,f"Node::distance is the max-norm distance on the torus (D={D})",toR(v.t)==zmax(*[circr(a,b) for a,b in zip(x,y)]),assume=False)
    c.discharge(E,{**{f"x{d}":x[d] for d in range(D)},**{f"y{d}":y[d] for d in range(D)}})
def lemmas(c):
    """one coordinate: points x in cell a, y in cell b of a ring of n=2^l cells (scaled by n)"""
    a,b,n=z3.Ints("a b n"); u,v=z3.Reals("u v"); hyp=[n>=1,0<=a,a<n,0<=b,b<n,z3.ToReal(a)<=u,u<z3.ToReal(a+1),z3.ToReal(b)<=v,v<z3.ToReal(b+1)]
    N=z3.ToReal(n); g=z3.ToReal(circ(a,b,n)-1)
    c.lemma("lemma","one coordinate: the torus distance of two points is at least the gap of their cells",hyp,circr(u,v,N)>=g)
    c.lemma("lemma","one coordinate: cells at circular distance at most 1 have points arbitrarily close (the bound 0 is tight)",[n>=1,0<=a,a<n,0<=b,b<n,circ(a,b,n)<=1],
        z3.Or(*[z3.Or(a+i==b+j,a+i==b+j+n,a+i+n==b+j) for i in(0,1) for j in(0,1)]))
    c.lemma("lemma","one coordinate: cells at circular distance at least 2 share no point of their closures",[n>=1,0<=a,a<n,0<=b,b<n,circ(a,b,n)>=2],
        z3.And(*[z3.And(a+i!=b+j,a+i!=b+j+n,a+i+n!=b+j) for i in(0,1) for j in(0,1)]))
    p,q=z3.Reals("p q"); w=[z3.Real(f"w{i}") for i in range(5)]; z=[z3.Real(f"z{i}") for i in range(5)]
    c.lemma("lemma","max norm: coordinatewise lower bounds bound the distance (D<=5)",[z3.And(s>=t,s>=0) for s,t in zip(w,z)],zmax(*w)>=zmax(*z,z3.RealVal(0)))
def replay(N,refuted,unknown,errors):
    N.drive("gridgeo.cpp",[N.seed,60000 if N.tier=="quick" else 2000000]+models(refuted),what="touching, dist, Node::distance against a coordinate-wise oracle; points sampled in cells; small levels exhaustively")
def models(refuted):
    a=[]
    for o in refuted[:60]:
        md=o.get("model") or {}
        if "level" in md: a+=["c",md["D"],md["level"]]+[md[f"a{d}"] for d in range(md["D"])]+[md[f"b{d}"] for d in range(md["D"])]
        elif "x0" in md:
            D=sum(1 for k in md if k[0]=="x"); a+=["n",D]+[md[f"x{d}"] for d in range(D)]+[md[f"y{d}"] for d in range(D)]
    return a
RULE="cell pairs and point pairs; non-trivial when the two cells or points differ"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic (cell widths are powers of two, so the scalings in dist are exact)","contracts of cellOfLevel (C02) and extract (C01) at call sites","levels 0..floor(31/D) (30 for D=1): finer levels do not fit 32-bit cell numbers"]
EXPLANATION="postconditions over symbolic cells for every level whose cells fit in 32 bits; geometric meaning as lemmas over the postconditions"
