"""C07 every vertex pair is decided exactly once by the GIRG sampler."""
from contracts.gtree import *
from contracts import gsample
def jobs(tier):
    r=[]
    for D in (5,4,3,2,1):
        r+=[(f"{f} D={D}",g,dict(D=D)) for f,g in(("visitCellPair_sequentialStart","seqstart"),("visitCellPair","visit"))]
        r+=[(f"sampleTypeI D={D} {k}","typeI",dict(D=D,cases=(k,))) for k in((True,True),(True,False),(False,True),(False,False))]
        r+=[(f"sampleTypeII D={D}","typeII",dict(D=D)),(f"generateEdges D={D}","gen",dict(D=D))]
    return r+[("pair index","index_lemma",{})]
def visit(c,D,only=None): focus(); visit_cases(c,D,only=only)
def seqstart(c,D,only=None): focus(); visit_cases(c,D,"visitCellPair_sequentialStart",seq_args,only=only)
def gen(c,D): focus(); gen_edges(c,D)
def typeI(c,D,cases): focus(); gsample.typeI(c,D,cases)
def typeII(c,D): focus(); gsample.typeII(c,D)
def index_lemma(c): gsample.index_lemma(c)
def replay(N,refuted,unknown,errors):
    sc=1 if N.tier=="quick" else 20
    N.drive("girg.cpp",["cover",N.seed,sc],defs=["NDEBUG"],repo_sources=GSRC,what="pairs decided by the real sampler (alpha=0 gives the complete graph, callbacks counted per pair) for random trees, D=1..5, 1..9 threads",timeout=300)
GSRC=["source/girgs/source/Generator.cpp","source/girgs/source/WeightScaling.cpp"]
RULE="weight/position sets sampled with 1 to 9 threads; non-trivial if the tree has more than one level"
ASSUMPTIONS=["cell numbers fit 32 bits (the tree has at most 31/D+1 levels)","the point index returns exactly the vertices of a layer and cell (contract proved in C13)","the layer pair lists hold every ordered pair once, on its comparison level (proved in C06)","the numbering and touching of cells (C02, C04)","std::vector push_back/resize as the C++ standard says","geometric_distribution returns less than 2^60"]
LEVEL="proof"
EXPLANATION="One fixed pair of vertices with symbolic positions, layers and cells. visitCellPair and visitCellPair_sequentialStart are proved against the contract 'decides the pair exactly once if both cells contain its vertices and the level is not below the pair's comparison level, else never'; recursive calls use the contract. generateEdges is proved for every thread count with the outlined parallel loop. sampleTypeI's double loop has inferred invariants counting the fixed pair; sampleTypeII's skipping is proved to settle every index once."
