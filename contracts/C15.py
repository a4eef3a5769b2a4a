"""C15: integer sort"""
from contracts.isort import *
LEVEL="proof"
TECHNIQUE="contract-based deductive verification"
NOTE="IntSort.h (vector, unique_ptr and iterator overloads, constructor, sort, move_to_queues) verified from /repo's source for every number of key bits, any number of elements and threads"
EXPLANATION="the radix sort keeps every element exactly once and orders by key, stably"
ASSUMPTIONS=["the number of elements with a digit does not depend on the order in which they are counted (finite sums over a permutation)","an injective map of the places 0..n-1 into themselves is a permutation",
 "at most 2^17 threads, fewer than 2^40 elements","OpenMP: teams, barriers and worksharing as specified","elements are moved without being changed (Elem is an opaque 64-bit value; keys are an arbitrary function of it)"]
def jobs(tier):
    out=[]
    for w in which_files():
        out+=[(f"sort, {b} key bits ({w})","sort",dict(which=w,b=b)) for b in range(32,-1,-1)]
        out+=[(f"move_to_queues, {b} key bits ({w})","rounds",dict(which=w,b=b)) for b in range(32,8,-1)]
        out+=[(f"constructor ({w})","ctor",dict(which=w,bits=range(0,33))),(f"idiv_ceil ({w})","ceil_div",dict(which=w))]+[(f"intsort {k} ({w})","wrapper",dict(which=w,kind=k)) for k in("vector","iterator","unique_ptr")]
    return out
def replay(N,refuted,unknown,errors):
    q=N.tier=="quick"; sc=1 if q else 20
    sec=8 if q else 200
    for defs,extra in(([],[]),(["HYPER"],[]),([],["-fsanitize=address"])): N.drive("sort.cpp",[N.seed,sec],defs=["NDEBUG"]+defs,extra=extra,what="the real intsort "+("(hypergirgs copy) " if defs else "")+("with address sanitizer " if extra else "")+"against std::stable_sort, lengths 0 to several blocks of 2^17, 1..16 threads",timeout=sec*5+60)
RULE='sequences sorted; non-trivial if keys repeat and are out of order'
