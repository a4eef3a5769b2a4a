"""C13 the GIRG point index returns exactly the vertices of a layer and cell"""
from contracts.part import *
GS=["source/girgs/source/Generator.cpp","source/girgs/source/WeightScaling.cpp"]; HS=["source/hypergirgs/source/Generator.cpp","source/hypergirgs/source/RadiusLayer.cpp","source/hypergirgs/source/AngleHelper.cpp"]
def jobs(tier):
    out=[("lemmas","layer_lemmas",dict(which="g"))]
    for D in range(1,6): out+=[(f"buildPartition D={D}","partition",dict(which="g",D=D)),(f"access functions D={D}","access",dict(which="g",D=D)),(f"Node D={D}","node",dict(D=D))]
    return out
def replay(N,refuted,unknown,errors):
    q=N.tier=="quick"; sc=1 if q else 20
    N.drive("girg.cpp",["index",N.seed,3*sc],defs=["NDEBUG"],repo_sources=GS,what="every layer, level and cell of the real index asked and compared with a direct scan; also against the fixed sequence with 1..9 threads",timeout=300)
RULE='trees built; non-trivial if more than one layer and level'
LEVEL="proof"
TECHNIQUE="contract-based deductive verification"
NOTE="SpatialTree::buildPartition and the constructor of Node, D=1..5, pointsInCell, kthPoint, cellIterators and levelledCell verified from /repo's source for every number of vertices, layers, cells and threads"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic; log2 is increasing with log2(2^i)=i","intsort sorts (C15); cell numbers of points and levels (C01, C02, C03) and insertion levels (C06) as proved there","fewer than 2^31-2^18 cells in total, n>=1, at most 2^17 threads","OpenMP: teams, barriers, single and worksharing as specified; a word read while its owner overwrites it is either its old or its new value"]
EXPLANATION="buildPartition: classification fills every node with its vertex' data and the number of its layer's cell; after sorting, ID(k) is the vertex at place k and LB(c) the number of places with a smaller cell number. The marking loop is proved to leave LB(c) or the mark of an empty cell in every entry, the repair - single section, barrier, each thread's own part - to leave LB(c) in all, for any number of threads, and every layer object to point to its own cells. The access functions are proved to return LB of the first descendant and of the one behind the last; lemmas turn this into: exactly the vertices of the layer whose cell on the asked level is the asked one, each once."
