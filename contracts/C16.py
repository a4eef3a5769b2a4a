"""C16 generated weights and positions follow the documented distributions."""
from contracts.gdraw import *
def jobs(tier): return [("generateWeights","w",{}),("generatePositions","p",{}),("lemmas","lemmas",{})]
def w(c): gen(c,"generateWeights")
def p(c): gen(c,"generatePositions")
def lemmas(c):
    n,ple,u,W,x=z3.Reals("n ple u W x"); pw=rfun("pow",2); e=1-ple; cc=pw(n/2,e)
    # facts about powers with negative exponent: pow(1,e)=1, pow(.,e) is decreasing and inverse to pow(.,1/e)
    facts=[n>=2,ple>1,0<=u,u<1,cc<=1,cc>0,x==(cc-1)*u+1,W==pw(x,1/e),z3.Implies(x>0,pw(W,e)==x),z3.Implies(z3.And(x>0,x<=1),W>=1),z3.Implies(z3.And(x>=cc,x>0),W<=n/2)]
    c.lemma("lemma","the transform maps [0,1) into [1,n/2] (n>=2)",facts,z3.And(W>=1,W<=n/2,x>0,x<=1))
    c.lemma("lemma","the transform inverts the distribution function of the truncated power law: F(W)=u",facts+[cc<1],(1-pw(W,e))/(1-cc)==u)
def replay(N,refuted,unknown,errors):
    N.drive("draw.cpp",defs=["GIRG","NDEBUG"],args=["girg",N.seed,1 if N.tier=="quick" else 20],repo_sources=["source/girgs/source/Generator.cpp","source/girgs/source/WeightScaling.cpp"],what="sizes, ranges, Kolmogorov-Smirnov distance of weights and coordinates, repeated numbers within and between threads and dimensions, for several n, exponents, seeds and thread counts",timeout=300)
RULE="vectors generated; non-trivial if n is at least 100"
LEVEL="proof"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic; pow satisfies the power laws used in the lemmas","uniform_real_distribution yields uniform numbers and mersenne_twister_engine independent streams for different seeds (libstdc++)","seed + number of threads fits an int","OpenMP static schedules cover every iteration exactly once"]
EXPLANATION="generateWeights and generatePositions with their outlined parallel regions: every entry f (and coordinate fd) is written exactly once (loop invariants over a ghost counter, any n, dimension, thread count), each time from a random number drawn for it alone from the thread's own generator, uniform in [0,1), by the documented transform; the result has n entries of the given dimension. Lemmas: the transform inverts the truncated power law's distribution function and stays in [1,n/2]."
