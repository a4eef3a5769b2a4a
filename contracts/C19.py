"""C19 returned edge lists contain every sampled edge exactly once"""
from vlib.prove import *
from contracts.gtree import only
from contracts import gedges, gsample, hsample
RX="reported with the number of the calling thread"
GS=["source/girgs/source/Generator.cpp","source/girgs/source/WeightScaling.cpp"]; HS=["source/hypergirgs/source/Generator.cpp","source/hypergirgs/source/RadiusLayer.cpp","source/hypergirgs/source/AngleHelper.cpp"]
def jobs(tier): return [("girgs::generateEdges","ed",dict(which="g")),("hypergirgs::generateEdges","ed",dict(which="h"))]+[(f"SpatialTree::sampleType{k} D={D}","g"+k,dict(D=D)) for D in(5,4,3,2,1) for k in("I","II")]+[("HyperbolicTree::sampleType"+k,"h"+k,{}) for k in("I","II")]
def gI(c,D): only(RX); gsample.typeI(c,D,((True,False),),count=False)
def gII(c,D): only(RX); gsample.typeII(c,D)
def hI(c): only(RX); hsample.typeI(c,((True,False),),zero=False,count=False)
def hII(c): only(RX); hsample.typeII(c,zero=False)
def ed(c,which): only("."); gedges.edges(c,which)
def replay(N,refuted,unknown,errors):
    q=N.tier=="quick"; sc=1 if q else 20
    N.drive_par("edges.cpp",[[k,N.seed,sc] for k in("girg","hrg")],defs=["NDEBUG"],repo_sources=GS+HS,what="edge lists of the real generateEdges against the edges the sampler reports to a counting callback for the same seed, below, at and above 2^20 edges per thread",timeout=400)
RULE='graphs generated; non-trivial above 2^20 edges'
LEVEL="proof"
ASSUMPTIONS=["std::vector's emplace_back, push_back, insert, clear and constructors, std::mutex (pthread_mutex_lock, unlock) and omp critical behave as specified","the sampler reports with the number of the calling thread (proved); OpenMP thread numbers are below omp_get_max_threads()","the tree constructors and the sampling run are replaced by their contracts (C01 to C12)"]
EXPLANATION="Rely/guarantee over the callback: for an arbitrary thread, an arbitrary reported edge and an arbitrary state of all lists the callback body is proved to keep (copies in the returned list + copies in the thread's own list) in step with what was reported, with and without the flush at 2^20 edges, to touch only the thread's own list, to change the returned list only under one lock shared by all threads, and to leave all other state alone; the final loop is proved to append every thread's remaining list completely and once, so that at return the list holds each edge exactly as often as it was reported; the sampler is built for the arguments given and runs exactly once for every dimension 1 to 5."
