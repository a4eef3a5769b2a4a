"""C05 angular cells of the hyperbolic generator: touching, cellsBetween, dist on the circle."""
from vlib.prove import *
from vlib.spec import *
HTU='#include "%s/source/hypergirgs/source/AngleHelper.cpp"\n'%REPO
Q="hypergirgs::AngleHelper::"
def jobs(tier): return [("touching","f",dict(what="touching")),("cellsBetween","f",dict(what="cellsBetween")),("dist","f",dict(what="dist")),("lemmas","lemmas",{})]
def f(c,what):
    q=Q+what; m=c.load(HTU,[q]); 
    for l in range(31):
        n=1<<l; E=Engine(m,name=q); st=State(); a=E.sym_int(st,"cellA",32,n-1,2*n-2); b=E.sym_int(st,"cellB",32,n-1,2*n-2)
        out=E.run_fn(c.fn(m,q),[a,b,I(32,l)],st); c.cover(q,f"level {l}",[z3.BoolVal(bool(out))]); cd=circ(a.t,b.t,n); btw=z3.If(cd<=1,z3.IntVal(0),cd-1)
        for s,v in out:
            if what=="touching": E.oblige(s,f"touching iff equal or neighbours on the circle (level {l})",as_bool(E,s,v)==(cd<=1),assume=False)
            elif what=="cellsBetween": E.oblige(s,f"cellsBetween counts the cells strictly between on the shorter way (level {l})",toZ(E.wraps(s,v))==btw,assume=False)
            else: E.oblige(s,f"dist is the angle of the cells between (level {l})",toR(v.t)*n==z3.ToReal(btw)*toZ(2*PI_D),assume=False)
        c.discharge(E,dict(level=l,a=a.t,b=b.t))
def lemmas(c):
    a,b,n=z3.Ints("a b n"); u,v=z3.Reals("u v"); hyp=[n>=1,0<=a,a<n,0<=b,b<n,z3.ToReal(a)<=u,u<z3.ToReal(a+1),z3.ToReal(b)<=v,v<z3.ToReal(b+1)]
    c.lemma("lemma","the angle between points of two cells is at least the angle of the cells between them (in units of a cell width)",hyp,circr(u,v,z3.ToReal(n))>=z3.ToReal(circ(a,b,n)-1))
    c.lemma("lemma","two touching cells contain points at arbitrarily small angle (closures meet)",[n>=1,0<=a,a<n,0<=b,b<n,circ(a,b,n)<=1],z3.Or(*[z3.Or(a+i==b+j,a+i==b+j+n,a+i+n==b+j) for i in(0,1) for j in(0,1)]))
def replay(N,refuted,unknown,errors):
    a=[]
    for o in refuted[:60]:
        md=o.get("model") or {}
        if "level" in md: a+=[md["level"],md["a"],md["b"]]
    N.drive("angles.cpp",[N.seed,300000 if N.tier=="quick" else 10000000]+a,repo_sources=["source/hypergirgs/source/AngleHelper.cpp"],what="touching/cellsBetween/dist/cellForPoint/bounds against 64-bit circle arithmetic; exhaustive to level 6")
RULE="cell pairs of a level; non-trivial when different"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic","levels 0..30"]
EXPLANATION="postconditions over symbolic cells for every level 0..30; geometric lower bound as lemma over the postconditions"
