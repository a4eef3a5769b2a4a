"""C02 cell numbering: the 2^D-ary grid hierarchy (girgs) and the binary one over angles (hypergirgs) are numbered consistently."""
from vlib.prove import *
GT="""#include <algorithm>
#include <type_traits>
#include <cmath>
#include <string>
#include <cstdint>
#include <girgs/SpatialTreeCoordinateHelper.h>
template class girgs::SpatialTreeCoordinateHelper<%d>;
"""
HT="""#include <hypergirgs/AngleHelper.h>
using H=hypergirgs::AngleHelper;
unsigned (*f0)(unsigned)=&H::numCellsInLevel; unsigned (*f1)(unsigned)=&H::firstCellOfLevel; unsigned (*f2)(unsigned)=&H::parent;
unsigned (*f3)(unsigned)=&H::firstChild; unsigned (*f4)(unsigned)=&H::secondChild; unsigned (*f5)()=&H::numChildren;
"""
def first(D,l): return ((1<<(D*l))-1)//((1<<D)-1)
def bv(x): return z3.BitVecVal(x,32)
def jobs(tier): return [(f"grid D={D}","grid",dict(D=D)) for D in range(1,6)]+[("angles","angles",{})]

def call(c,m,q,args,pre):
    E=Engine(m,mode="bv",name=q); st=State(); st.pc+=pre
    r=E.run_fn(c.fn(m,q),args,st); return E,r
def post(c,E,outs,name,goal,inputs):
    c.cover(E.fn_name,name,[z3.BoolVal(bool(outs))])
    for s,v in outs: E.oblige(s,name,goal(v.t),assume=False)
    c.discharge(E,inputs)

def grid(c,D):
    H="girgs::SpatialTreeCoordinateHelper::"; fns=["numChildren","numCellsInLevel","firstCellOfLevel","parent","firstChild","lastChild","cellOfLevel"]
    m=c.load(GT%D,[H+f for f in fns]); nc=1<<D; x=z3.BitVec("cell",32); L=[l for l in range(0,32) if D*l<=31]
    E,o=call(c,m,H+"numChildren",[],[]); post(c,E,o,f"numChildren is 2^{D}",lambda t:t==nc,{"D":D})
    for l in L:
        E,o=call(c,m,H+"numCellsInLevel",[V(32,bv(l))],[]); post(c,E,o,f"numCellsInLevel({l}) is 2^(D*level)",lambda t:t==bv(1<<(D*l)),{"D":D,"level":l})
        E,o=call(c,m,H+"firstCellOfLevel",[V(32,bv(l))],[]); post(c,E,o,f"firstCellOfLevel({l}) is the number of cells in coarser levels",lambda t:t==bv(first(D,l)),{"D":D,"level":l})
        hi=min(first(D,l+1),1<<32)-1; pre=[z3.UGE(x,bv(first(D,l))),z3.ULE(x,bv(hi))]
        inp={"D":D,"level":l,"cell":x}
        E,o=call(c,m,H+"cellOfLevel",[V(32,x)],pre); post(c,E,o,f"cellOfLevel of a cell of level {l} is its index within the level",lambda t:t==x-bv(first(D,l)),inp)
        if l+1 in L:
            off=x-bv(first(D,l))
            E,o=call(c,m,H+"firstChild",[V(32,x)],pre); post(c,E,o,f"firstChild maps level {l} to its block of level {l+1}",lambda t:t==bv(first(D,l+1))+off*bv(nc),inp)
            E,o=call(c,m,H+"lastChild",[V(32,x)],pre); post(c,E,o,f"lastChild is firstChild+2^D-1 (level {l})",lambda t:t==bv(first(D,l+1))+off*bv(nc)+bv(nc-1),inp)
            k=z3.BitVec("k",32); ch=z3.BitVec("child",32)
            E,o=call(c,m,H+"parent",[V(32,ch)],pre+[z3.ULT(k,bv(nc)),ch==bv(first(D,l+1))+off*bv(nc)+k]); post(c,E,o,f"parent inverts children (level {l})",lambda t:t==x,{**inp,"child":ch})
    # the children blocks partition the next level (over the contracts)
    n,i,j,k,q=[z3.Int(v) for v in("n","i","j","k","q")]
    dom=[n>=1,0<=i,i<n,0<=j,j<n,0<=k,k<nc,0<=q,q<nc]
    c.lemma("lemma",f"children of different cells are different, children stay in the level (D={D})",dom,z3.And(z3.Implies(i*nc+k==j*nc+q,z3.And(i==j,k==q)),i*nc+k<n*nc))
    c.lemma("lemma",f"every cell of the next level is a child (D={D})",[n>=1,0<=k,k<n*nc],z3.And(k/nc<n,k==(k/nc)*nc+k%nc))

def angles(c):
    H="hypergirgs::AngleHelper::"; fns=["numCellsInLevel","firstCellOfLevel","parent","firstChild","secondChild","numChildren"]
    m=c.load(HT,[H+f for f in fns]); x=z3.BitVec("cell",32)
    E,o=call(c,m,H+"numChildren",[],[]); post(c,E,o,"numChildren is 2",lambda t:t==2,{})
    for l in range(32):
        E,o=call(c,m,H+"numCellsInLevel",[V(32,bv(l))],[]); post(c,E,o,f"numCellsInLevel({l}) is 2^level",lambda t:t==bv(1<<l),{"level":l})
        E,o=call(c,m,H+"firstCellOfLevel",[V(32,bv(l))],[]); post(c,E,o,f"firstCellOfLevel({l}) is 2^level-1",lambda t:t==bv((1<<l)-1),{"level":l})
        if l<31:
            pre=[z3.UGE(x,bv((1<<l)-1)),z3.ULT(x,bv((1<<(l+1))-1))]; off=x-bv((1<<l)-1); inp={"level":l,"cell":x}
            E,o=call(c,m,H+"firstChild",[V(32,x)],pre); post(c,E,o,f"firstChild (level {l})",lambda t:t==bv((1<<(l+1))-1)+off*2,inp)
            E,o=call(c,m,H+"secondChild",[V(32,x)],pre); post(c,E,o,f"secondChild (level {l})",lambda t:t==bv((1<<(l+1))-1)+off*2+1,inp)
            k=z3.BitVec("k",32); ch=z3.BitVec("child",32)
            E,o=call(c,m,H+"parent",[V(32,ch)],pre+[z3.ULT(k,bv(2)),ch==bv((1<<(l+1))-1)+off*2+k]); post(c,E,o,f"parent inverts children (level {l})",lambda t:t==x,{**inp,"child":ch})

def replay(N,refuted,unknown,errors):
    a=[]
    for o in refuted:
        md=o.get("model") or {}
        if "cell" in md or "level" in md: a+=[str(md.get("D",0)),str(md.get("level",0)),str(md.get("cell",0))]
    N.drive("numbering.cpp",[N.seed,20000 if N.tier=="quick" else 1000000]+a[:300],repo_sources=["source/hypergirgs/source/AngleHelper.cpp"],what="tree structure against 64-bit arithmetic: every level, boundary and random cells, verifier counterexamples")
RULE="(D, level, cell) triples: verifier counterexamples, boundary cells of every level, random; every triple is a distinct cell"
ASSUMPTIONS=["levels whose cell numbers fit 32-bit signed shifts: 0..floor(31/D), 30 for D=1 and angles"]
EXPLANATION="bit-vector contracts on the numbering functions for every level whose cells fit 32 bits and every cell of it; partition lemmas over the contracts"
