"""C12 HRG edges appear with exactly the model's probability."""
from contracts.htree import *
from contracts import hsample, hpoint, hctor, gsample
KS=((True,True),(True,False),(False,True),(False,False))
def jobs(tier):
    return [("constructor","ctor",{})]+[(f"sampleTypeI {k}","typeI",dict(cases=(k,))) for k in KS]+[("sampleTypeII","typeII",{}),("DistanceFilter","filt",{}),("Point","point",{}),("hyperbolicDistance","dist",{}),("partitioningBaseLevel","pbl",{}),("connectionProbRec","cpr",{}),("lemmas","lemmas",{})]
def typeI(c,cases): focus("outcome"); hsample.typeI(c,cases,zero=False,count=False)
def typeII(c): focus("outcome"); hsample.typeII(c,zero=False)
def ctor(c): hctor.ctor(c)
def filt(c): hpoint.filt(c)
def point(c): hpoint.point(c)
def dist(c): hpoint.coshdist(c)
def pbl(c): hctor.wrap(c); hpoint.pbl(c)
def cpr(c): hpoint.cpr(c)
def lemmas(c):
    from contracts import C10
    hpoint.filter_lemma(c); hpoint.distance_lemmas(c); hpoint.level_lemmas(c); C10.lemmas(c); gsample.index_lemma(c); hsample.cell_lemma(c)
from contracts.C08 import HSRC
def replay(N,refuted,unknown,errors):
    k,sc=(7,1) if N.tier=="quick" else (14,15)
    N.drive_par("hrg.cpp",[["prob",N.seed*1000+i,sc] for i in range(k)],defs=["NDEBUG"],repo_sources=HSRC,what="edge frequencies of the real generator over many seeds against 1/(1+exp((d-R)/2T)) (z-test per pair and in aggregate)",timeout=400)
RULE="graphs sampled; non-trivial if at least one pair has a probability strictly between 0 and 1"
LEVEL="proof"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic; cosh/acosh, exp/log are inverse and increasing; addition theorems of sinh/cosh","T is 0 or above 1e-15; groups with a bound below 1.1e-16 have an expected number of edges below 1e-6 unless they hold more than 10^10 pairs","uniform_real_distribution and geometric_distribution sample their distributions (libstdc++)","pairs are decided exactly once (C08), schedule (C06), index (C14)","geometric_distribution returns less than 2^60"]
EXPLANATION="The decision automaton (pair being decided, number drawn for it, reported or not) is carried through the real bodies of sampleTypeI and sampleTypeII for T>0: every decided pair is reported exactly if its number is below 1/connectionProbRec(distance), including the early answers of the distance filter; the filter's constructor and look-ups are proved stage by stage and lemmas show that its answers agree with the exact comparison; sampleTypeII's numbers are uniform in [0,q), its skips geometric with that q, and q, as the constructor computes it, is at least the probability of every pair of the cells."
