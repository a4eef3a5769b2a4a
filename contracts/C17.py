"""C17 weight scaling gives the requested expected average degree"""
from vlib.prove import *
from contracts import scale
GS=["source/girgs/source/Generator.cpp","source/girgs/source/WeightScaling.cpp"]
def jobs(tier): return [(f"finite alpha, {D} dimensions","fin",dict(D=D)) for D in(1,2,3,4,5)]+[(f"threshold, {D} dimensions","thr",dict(D=D)) for D in(1,2,3,4,5)]+[("search","search",{}),("scaleWeights","apply",{})]
def fin(c,D): scale.estimate(c,"estimateWeightScaling",D)
def thr(c,D): scale.estimate(c,"estimateWeightScalingThreshold",D)
def search(c): scale.search(c)
def apply(c): scale.apply(c)
def replay(N,refuted,unknown,errors):
    q=N.tier=="quick"
    N.drive("scaling.cpp",[N.seed,15 if q else 300],defs=["NDEBUG"],repo_sources=GS,what="the factor returned by the real scaling against an independent evaluation of the exact expected degree, up to the complete graph's degree n-1",timeout=1000)
RULE='weight sets scaled; non-trivial if some pair saturates'
LEVEL="proof"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic; pow satisfies the power laws for positive bases","(2 dist)^D is uniform in [0,1] for uniform positions under the maximum norm on the torus (so the edge probability of a pair, averaged over the positions, is min(1,X) or (alpha X - X^alpha)/(alpha-1), X=2^D w_i w_j/W)","contracts of std::sort, std::partition, std::lower_bound, std::accumulate's inlined loop and vectors (a sorted permutation has the same sums)","OpenMP static worksharing covers every iteration exactly once and reductions combine the threads' values; the chunks of all threads together are the whole range","weights are positive finite doubles and neither W/(2^D s max w) nor the largest weight leaves the range of normal doubles","partial correctness of the search: that it ends is not proved (the drivers run it under a time limit)","1 to 5 dimensions, one proof each"]
EXPLANATION="For any number of weights and any scaling c, the function that estimateWeightScaling(Threshold) searches on, with everything it calls inlined and std algorithms by contract, is the exact expected average degree: loop invariants over the club, row and partner positions give the sums of the saturated and unsaturated pairs' terms, lemmas (by induction over rows and partners) tie those sums to the sum of all pair probabilities. exponentialSearch only ends where the function is within the accuracy of the desired value (loop invariants: the variables are values of the function at each other). scaleWeights calls the right estimator with the right arguments, multiplies every weight once by its result and returns it; alpha<=0 and 1 are refused."
