"""C08 HRG sampling terminates and considers every pair exactly once with any threads."""
from contracts.htree import *
from contracts import htree, hsample, gsample
KS=((True,True),(True,False),(False,True),(False,False))
def jobs(tier):
    return [("generate","generate",{})]+[(f"visitCellPairSample {o}","share",dict(only=(o,))) for o in[(s,m,l) for s in(True,False) for m in("match","swapped","other") for l in(True,False) if not(s and m=="swapped")]]+[
        ("visitCellPair","visit",{})]+[(f"sampleTypeI {k}","typeI",dict(cases=(k,))) for k in KS]+[("sampleTypeII","typeII",{}),("visitCellPairCreateTasks","create",{}),("lemmas","lemmas",{})]
def visit(c): focus(); htree.visit(c)
def create(c): focus(); htree.create(c)
def share(c,only): focus(); htree.share(c,only)
def generate(c): focus(); htree.generate(c)
def typeI(c,cases): focus(); hsample.typeI(c,cases)
def typeII(c): focus(); hsample.typeII(c)
def lemmas(c): htree.lemmas(c); hsample.cell_lemma(c); gsample.index_lemma(c)
HSRC=["source/hypergirgs/source/"+f for f in("Generator.cpp","RadiusLayer.cpp","AngleHelper.cpp")]
def replay(N,refuted,unknown,errors):
    sc=1 if N.tier=="quick" else 20
    for lim in(None,1,2,3): N.drive("hrg.cpp",["cover",N.seed+(lim or 0),sc],defs=["NDEBUG"],repo_sources=HSRC,env=None if lim is None else {"OMP_THREAD_LIMIT":str(lim)},what="pairs decided by the real sampler for random radii/angles, 1..9 requested threads"+("" if lim is None else f", at most {lim} granted"),timeout=300)
RULE="radii/angle sets sampled with 1 to 9 threads, also with fewer threads granted than requested; non-trivial if the tree has more than one level"
LEVEL="proof"
ASSUMPTIONS=["the point index returns exactly the points of a layer and cell (contract proved in C14)","every ordered layer pair is compared on exactly one level (C06)","numbering and touching of angular cells (C02, C05)","angular cells of at most 30 levels; fewer than 2^30 layers","std::thread/mutex/condition/OpenMP runtime functions as their standards say: a lock excludes, a waiting thread is woken after a notify","geometric_distribution returns less than 2^60"]
EXPLANATION="One fixed pair of points with symbolic cells and layers. visitCellPair, visitCellPairCreateTasks, visitCellPairSample (the split into shares and tasks, by ghost turns) and generate (workers, tasks, locks) are proved against 'decides the pair exactly once over all shares'; recursive calls use the contract, every recursive call goes one level deeper (termination by the number of levels). sampleTypeI's loops have inferred invariants counting the fixed pair; sampleTypeII's skipping settles every index exactly once."
