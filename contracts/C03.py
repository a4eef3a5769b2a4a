"""C03 points and cells: cellForPoint/bounds agree, cells of one point nest from level to level (grid and angles)."""
from vlib.prove import *
from vlib.spec import *
from contracts.C02 import GT
H="girgs::SpatialTreeCoordinateHelper::"; BM="girgs::BitManipulationDetails::Generic::Implementation::"
HTU='#include "%s/source/hypergirgs/source/AngleHelper.cpp"\nunsigned (*vp0)(double,unsigned)=&hypergirgs::AngleHelper::cellForPoint;\n'%REPO
Q="hypergirgs::AngleHelper::"
def jobs(tier):
    return [(f"cellForPoint D={D}","cfp",dict(D=D)) for D in range(1,6)]+[(f"bounds D={D}","bnd",dict(D=D)) for D in range(1,6)]+[("angles","angles",{}),("lemmas","lemmas",{})]
def cfp(c,D):
    q=H+"cellForPoint"; m=c.load(GT%D,[q,BM+"deposit"])
    for l in range(maxlevel(D)+1):
        E=Engine(m,name=q,contracts={BM+"deposit":h_deposit(D)}); st=State(); x=[z3.Real(f"x{d}") for d in range(D)]; st.pc+=[z3.And(t>=0,t<1) for t in x]
        r=E.new_obj(st,"position",{(8*d,8):R(x[d]) for d in range(D)}); r.readonly=True
        out=E.run_fn(c.fn(m,q),[P(r,0),I(32,l)],st); c.cover(q,f"level {l}",[z3.BoolVal(bool(out))])
        for s,v in out:
            t=E.wrapu(s,v)
            for d in range(D): E.oblige(s,f"coordinate {d} of the cell is floor(x{d}*2^{l}) (D={D})",EXT(D,d)(toZ(t))==z3.ToInt(x[d]*(1<<l)),assume=False)
            E.oblige(s,f"the cell lies in level {l} (D={D})",AND(LE(0,t),LT(t,1<<(D*l))),assume=False)
            E.oblige(s,f"the result is the Morton code of the coordinates (D={D}, level {l})",toZ(t)==MORT(D)(*[z3.ToInt(x[d]*(1<<l)) for d in range(D)]),assume=False)
        c.discharge(E,dict(D=D,level=l,**{f"x{d}":x[d] for d in range(D)}))
def bnd(c,D):
    q=H+"bounds"; m=c.load(GT%D,[q,H+"cellOfLevel",BM+"extract"])
    for l in range(maxlevel(D)+1):
        E=Engine(m,name=q,contracts={H+"cellOfLevel":h_cellOfLevel(D,l),BM+"extract":h_extract(D,l)}); st=State(); a=E.sym_int(st,"cell",32,first(D,l),first(D,l+1)-1)
        f=c.fn(m,q); r=None
        args=[a,I(32,l)]
        if f.ret.kind=="void": r=E.new_obj(st,"result"); args=[P(r,0)]+args
        out=E.run_fn(f,args,st); c.cover(q,f"level {l}",[z3.BoolVal(bool(out))]); sc=Fraction(1,1<<l)
        for s,v in out:
            for d in range(D):
                if r is not None: lo,hi=s.mem[r.id][(16*d,8)],s.mem[r.id][(16*d+8,8)]
                else: lo,hi=flat(v)[2*d:2*d+2]
                k=z3.ToReal(EXT(D,d)(a.t-first(D,l)))
                E.oblige(s,f"bounds[{d}] is [k,k+1]*2^-{l} for the cell's coordinate k (D={D})",z3.And(toR(lo.t)*(1<<l)==k,toR(hi.t)*(1<<l)==k+1),assume=False)
        c.discharge(E,dict(D=D,level=l,cell=a.t))
def flat(v):
    if isinstance(v,A): return [y for x in v.v for y in flat(x)]
    if isinstance(v,M): return [x for _,_,x in sorted(v.v,key=lambda c:c[0])]
    return [v]
def angles(c):
    m=c.load(HTU,[Q+"cellForPoint",Q+"bounds"]); ang=z3.Real("angle")
    for l in range(31):
        n=1<<l; q=Q+"cellForPoint"; E=Engine(m,name=q); st=State(); st.pc+=[ang>=0,ang<toZ(2*PI_D)]
        for s,v in E.run_fn(c.fn(m,q),[R(ang),I(32,l)],st):
            t=toZ(E.wrapu(s,v)); E.oblige(s,f"cellForPoint is the cell of the level whose arc contains the angle (level {l})",z3.And(t>=0,t<n,z3.ToReal(t)*toZ(2*PI_D)<=ang*n,ang*n<z3.ToReal(t+1)*toZ(2*PI_D)),assume=False)
        c.discharge(E,dict(level=l,angle=ang))
        q=Q+"bounds"; E=Engine(m,name=q); st=State(); a=E.sym_int(st,"cell",32,n-1,2*n-2); f=c.fn(m,q); args=[a,I(32,l)]; r=None
        if f.ret.kind=="void": r=E.new_obj(st,"result"); args=[P(r,0)]+args
        out=E.run_fn(f,args,st); c.cover(q,f"level {l}",[z3.BoolVal(bool(out))])
        for s,v in out:
            lo,hi=(s.mem[r.id][(0,8)],s.mem[r.id][(8,8)]) if r is not None else flat(v)
            k=z3.ToReal(a.t-(n-1)); E.oblige(s,f"bounds are the arc of the cell (level {l})",z3.And(toR(lo.t)*n==k*toZ(2*PI_D),toR(hi.t)*n==(k+1)*toZ(2*PI_D)),assume=False)
        c.discharge(E,dict(level=l,cell=a.t))
def lemmas(c):
    x=z3.Real("x"); 
    c.lemma("lemma","nesting, one coordinate: floor(2y) div 2 == floor(y)",[x>=0],z3.ToInt(2*x)/2==z3.ToInt(x))
    # Morton code of the halved coordinates is the code shifted by D bits (C01: bit l*D+d is bit l of coordinate d)
    for D in range(1,6):
        nb=32//D; cs=[z3.BitVec(f"c{d}",32) for d in range(D)]; fine=z3.BitVec("fine",32); coarse=z3.BitVec("coarse",32)
        dep=lambda r,cc:[z3.Extract(i,i,r)==(z3.Extract(i//D,i//D,cc[i%D]) if i//D<nb else z3.BitVecVal(0,1)) for i in range(32)]
        c.lemma("lemma",f"nesting: the code of the halved coordinates is the parent's level-local number (D={D})",[z3.ULT(y,1<<nb) if nb<32 else z3.BoolVal(True) for y in cs]+dep(fine,cs)+dep(coarse,[z3.LShR(y,1) for y in cs]),coarse==z3.LShR(fine,D))
    k=z3.Int("k"); y=z3.Real("y")
    c.lemma("lemma","exactly one cell's interval [k,k+1) contains a scaled coordinate",[y>=0],z3.And(z3.ToReal(z3.ToInt(y))<=y,y<z3.ToReal(z3.ToInt(y)+1),z3.Implies(z3.And(z3.ToReal(k)<=y,y<z3.ToReal(k+1)),k==z3.ToInt(y))))
def replay(N,refuted,unknown,errors):
    a=[];b=[]
    for o in refuted[:60]:
        md=o.get("model") or {}
        if "x0" in md: a+=["p",md["D"],md["level"]]+[repr(float(md[f"x{d}"])) for d in range(md["D"])]
        elif "D" in md: a+=["b",md["D"],md["level"],md["cell"]]
        elif "angle" in md: b+=[md["level"],repr(float(md["angle"]))]
    n=40000 if N.tier=="quick" else 2000000
    N.drive("points.cpp",[N.seed,n]+a,what="cellForPoint and bounds against coordinate-wise floor; cell borders and random points; nesting across levels")
    N.drive("angles.cpp",[N.seed,300000]+(["p"]+b if b else []),repo_sources=["source/hypergirgs/source/AngleHelper.cpp"],what="angular cells")
RULE="points and cells at every level, borders included; non-trivial: a (point, level) pair"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic: multiplications by powers of two are exact; angle/2/pi is rounded in the code and exact in the proof","contracts of deposit/extract (C01) and cellOfLevel (C02) at call sites"]
EXPLANATION="postconditions over symbolic points for every level whose cells fit in 32 bits; nesting and uniqueness as lemmas over the postconditions"
