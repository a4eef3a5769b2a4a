"""C11 threshold HRGs have exactly the edges of the model."""
from contracts.htree import *
from contracts import hsample, hpoint, hctor
KS=((True,True),(True,False),(False,True),(False,False))
def jobs(tier):
    return [(f"sampleTypeI {k}","typeI",dict(cases=(k,))) for k in KS]+[("sampleTypeII","typeII",{}),("constructor","ctor",{}),("Point","point",{}),("isDistanceBelowR","below",{}),("hyperbolicDistance","dist",{}),("partitioningBaseLevel","pbl",{}),("geometry","lemmas",{})]
def typeI(c,cases): focus("outcome"); hsample.typeI(c,cases,zero=True,count=False)
def typeII(c): focus("outcome"); hsample.typeII(c,zero=True)
def ctor(c): hctor.ctor(c,zero=True)
def point(c): hpoint.point(c)
def below(c): hpoint.below(c)
def dist(c): hpoint.coshdist(c)
def pbl(c): hctor.wrap(c); hpoint.pbl(c)
def lemmas(c): hpoint.distance_lemmas(c); hpoint.level_lemmas(c)
from contracts.C08 import HSRC
def replay(N,refuted,unknown,errors):
    k,sc=(3,1) if N.tier=="quick" else (7,30)
    N.drive_par("hrg.cpp",[["threshold",N.seed*100+i,sc] for i in range(k)],defs=["NDEBUG"],repo_sources=HSRC,what="edge sets of the real generator at T=0 against the quadratic oracle (pairs at distance R up to 1e-9 excepted), radii uniform, clustered, on layer borders, 1..9 threads",timeout=400)
RULE="graphs generated; non-trivial if the tree has more than one level"
LEVEL="proof"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic; cosh, sinh, cos are uninterpreted with the addition theorems, signs and monotonicity stated in the lemmas","every pair whose cells touch on all levels down to its comparison level is decided exactly once (C08)","the schedule (C06), index (C14) and edge buffering (C19)","radii are positive"]
EXPLANATION="sampleTypeI is proved to report a decided pair exactly if cosh of its distance, as computed by isDistanceBelowR from the fields the Point constructor leaves, is below cosh(R) (T=0, loop invariants over the decision automaton); sampleTypeII is proved to decide nothing at T=0; partitioningBaseLevel is proved to return a level on which cells that do not touch are farther apart than R for the layers' inner radii, and lemmas (addition theorem of sinh, monotonicity of cos) extend this to every point of the layers; the constructor is proved to pass cosh(R)."
