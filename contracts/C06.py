"""C06 layer pairs are compared on the right level, each in exactly one."""
from contracts.gtree import only, re
from contracts import gctor, hctor, hpoint
def jobs(tier):
    r=[]
    for D in range(1,6): r+=[(f"SpatialTree D={D}","ctor",dict(D=D))]+[(f"{f} D={D}","lev",dict(D=D,which=f)) for f in("partitioningBaseLevel","weightLayerTargetLevel")]
    return r+[("HyperbolicTree","hyper",{}),("hyperbolic partitioningBaseLevel","pbl",{}),("lemmas","lemmas",{})]
def ctor(c,D): gctor.ctor(c,D)
def lev(c,D,which): gctor.levels_fn(c,D,which)
def hyper(c): only(r"layer pair|level|partition is built|radii|cells are|row-major"); hctor.ctor(c,zero=True)
def pbl(c): hctor.wrap(c); hpoint.pbl(c)
def lemmas(c): gctor.level_lemmas(c); hpoint.level_lemmas(c)
GSRC=["source/girgs/source/Generator.cpp","source/girgs/source/WeightScaling.cpp"]
from contracts.C08 import HSRC
def replay(N,refuted,unknown,errors):
    sc=1 if N.tier=="quick" else 20
    N.drive("girg.cpp",["pairs",N.seed,sc],defs=["NDEBUG"],repo_sources=GSRC,what="schedule of the real tree (levels, lists of layer pairs, insertion levels) for random weights against the formulas, D=1..5",timeout=300)
    N.drive("hrg.cpp",["pairs",N.seed,sc],defs=["NDEBUG"],repo_sources=HSRC,what="schedule of the real hyperbolic tree for random radii against the geometric condition",timeout=300)
RULE="weight sets / radii sets built into a tree; non-trivial if there is more than one layer"
LEVEL="proof"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic: log2 of the weight ratio is exact (a ratio within rounding of a power of two may fall on either side)","std::min_element, max_element, accumulate as the C++ standard says","weights are positive and finite; |log2(W/w0^2)| at most 2000","the insertion level of a hyperbolic layer is its comparison level with layer 0 (buildPartition, C14)","at most 30000 radius layers"]
EXPLANATION="partitioningBaseLevel and weightLayerTargetLevel are proved to return max(0,floor((B-i-j-2)/D)) and max(0,floor((B-i-1)/D)) for all arguments; the SpatialTree constructor is proved, for all weights and sizes, to set w0, wn, W, B=trunc(log2(W/w0^2)), the number of layers and levels accordingly and to store each ordered layer pair exactly once, on its comparison level, nothing else; lemmas give floor of the real logarithm, the bound by the insertion levels and the volume of cells. The HyperbolicTree constructor is proved to schedule each ordered pair of radius layers exactly once, on the level partitioningBaseLevel gives, which is proved to be the deepest level on which cells that do not touch are farther apart than R."
