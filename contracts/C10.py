"""C10 GIRG edges appear with exactly the model's probability."""
from contracts.gtree import *
from contracts import gsample, C04
KS=((True,True),(True,False),(False,True),(False,False))
def jobs(tier):
    r=[]
    for D in (5,4,3,2,1):
        r+=[(f"sampleTypeI D={D} {ks}","typeI",dict(D=D,cases=ks)) for ks in(KS[:2],KS[2:])]
        r+=[(f"sampleTypeII D={D}","typeII",dict(D=D)),(f"dist D={D}","dist",dict(D=D))]
    return r+[("pair index","index_lemma",{}),("lemmas","lemmas",{})]
def typeI(c,D,cases): focus('outcome'); gsample.typeI(c,D,cases,inf=False,count=False)
def typeII(c,D): focus('outcome'); gsample.typeII(c,D)
def dist(c,D): C04.cells(c,D,"dist")
def index_lemma(c): gsample.index_lemma(c)
def lemmas(c):
    p,q,r=z3.Reals("p q r")
    c.lemma("lemma","skipping keeps a pair with probability q and then accepts it if a number uniform in [0,q) is below p: together probability p",[0<q,q<1,0<=p,p<=q],q*(p/q)==p)
    c.lemma("lemma","a direct toss with a number uniform in [0,1) succeeds with probability min(1,p)",[p>=0,0<=r,r<1],(r<p)==(r<z3.If(p<1,p,1)))
    k=z3.Int("k"); s=z3.Real("s")
    c.lemma("lemma","geometric skipping: P(skip=k+1) = (1-q) P(skip=k), so each index is kept independently with probability q",[0<q,q<1,s==q*z3.Real("t"),z3.Real("t")>=0],(1-q)*s==q*((1-q)*z3.Real("t")))
def replay(N,refuted,unknown,errors):
    k,sc=(7,1) if N.tier=="quick" else (14,15)
    N.drive_par("girg.cpp",[["prob",N.seed*1000+i,sc] for i in range(k)],defs=["NDEBUG"],repo_sources=["source/girgs/source/Generator.cpp","source/girgs/source/WeightScaling.cpp"],what="edge frequencies of the real generator over many seeds against the model's probabilities (z-test at 6.5 sigma per pair and in aggregate)",timeout=400)
RULE="graphs sampled; non-trivial if at least one pair has a probability strictly between 0 and 1"
LEVEL="proof"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic; pow is an uninterpreted function with the monotonicity used","uniform_real_distribution and geometric_distribution sample their distributions (libstdc++)","pairs are decided exactly once (C07), index as in C13, cell distances as in C04","geometric_distribution returns less than 2^60"]
EXPLANATION="A decision automaton (ghost state: the pair being decided, the number drawn for it, reported or not) is carried through the real bodies of sampleTypeI and sampleTypeII: every decided pair is reported exactly if the number drawn for it is below (w_u*w_v/(W*dist^D))^alpha; in sampleTypeII the number is uniform in [0,q), pairs are selected by geometric skips with that same q, q is at least the pair's probability, every index is settled exactly once, and only groups whose expected number of edges is below 1e-6 are dropped."
