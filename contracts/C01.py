"""C01 Morton codes: deposit interleaves exactly, extract is its inverse, for D=1..5 and both implementations."""
from vlib.prove import *
TU="""#include <string>
#include <type_traits>
#include <cstddef>
#include <cstdint>
#include <girgs/BitManipulation.h>
template struct girgs::BitManipulationDetails::%s::Implementation<%d>;
"""
def jobs(tier):
    return [(f"{i} D={D}","morton",dict(impl=i,D=D)) for i in("Generic","BMI2") for D in range(1,6)]

def coords_of(v,D):
    """the D result words of extract, however the ABI returns them"""
    out=[]
    def walk(x):
        if isinstance(x,A): [walk(y) for y in x.v]
        elif isinstance(x,M): [walk(y) for _,_,y in sorted(x.v,key=lambda c:c[0])]
        elif isinstance(x,V):
            for k in range(x.w//32): out.append(z3.simplify(z3.Extract(32*k+31,32*k,x.t)))
    walk(v)
    if len(out)!=D: raise Unsupported(f"extract returns {len(out)} words")
    return out

def morton(c,impl,D):
    b=f"girgs::BitManipulationDetails::{impl}::Implementation"; nb=32//D
    defs=["USE_BMI2"] if impl=="BMI2" else []; extra=["-mbmi2"] if impl=="BMI2" else []
    m=c.load(TU%(impl,D),[b+"::deposit",b+"::extract"],defs,extra)
    # deposit: coords[d] < 2^floor(32/D)  ==>  result bit l*D+d == coords[d] bit l, every other bit 0
    f=c.fn(m,b+"::deposit"); E=Engine(m,mode="bv",name=b+"::deposit"); st=State()
    cs=[z3.BitVec(f"c{d}",32) for d in range(D)]
    pre=[z3.ULE(x,z3.BitVecVal((1<<nb)-1,32)) for x in cs]; st.pc+=pre
    r=E.new_obj(st,"coords",{(4*d,4):V(32,cs[d]) for d in range(D)}); r.readonly=True
    out=E.run_fn(f,[P(r,0)],st)
    c.cover(b+"::deposit","a normal return",[z3.Or(*[z3.And(*s.pc) if s.pc else z3.BoolVal(True) for s,_ in out])] if out else [z3.BoolVal(False)])
    for s,v in out:
        for i in range(32):
            l,d=divmod(i,D)
            E.oblige(s,f"deposit (D={D}): result bit {i} is bit {l} of coordinate {d}" if l<nb else f"deposit (D={D}): result bit {i} is 0",
                z3.Extract(i,i,v.t)==(z3.Extract(l,l,cs[d]) if l<nb else z3.BitVecVal(0,1)),assume=False)
    c.discharge(E,{f"c{d}":cs[d] for d in range(D)})
    # extract: for every word x: result[d] bit l == x bit l*D+d, higher bits 0
    f=c.fn(m,b+"::extract"); E=Engine(m,mode="bv",name=b+"::extract"); st=State(); x=z3.BitVec("x",32)
    if f.ret.kind=="void":
        r=E.new_obj(st,"ret"); out=E.run_fn(f,[P(r,0),V(32,x)],st)
        out=[(s,A([s.mem[r.id].get((4*d,4)) for d in range(D)])) for s,_ in out]
    else: out=E.run_fn(f,[V(32,x)],st)
    c.cover(b+"::extract","a normal return",[z3.BoolVal(bool(out))])
    for s,v in out:
        for d,w in enumerate(coords_of(v,D)):
            for l in range(32):
                i=l*D+d
                E.oblige(s,f"extract (D={D}): bit {l} of coordinate {d}",z3.Extract(l,l,w)==(z3.Extract(i,i,x) if i<32 else z3.BitVecVal(0,1)),assume=False)
    c.discharge(E,{"x":x})
    # inverses follow from the two contracts alone
    dep=z3.BitVec("dep",32); ex=[z3.BitVec(f"e{d}",32) for d in range(D)]
    depc=[z3.Extract(i,i,dep)==(z3.Extract(i//D,i//D,cs[i%D]) if i//D<nb else z3.BitVecVal(0,1)) for i in range(32)]
    exof=lambda w:[z3.Extract(l,l,ex[d])==(z3.Extract(l*D+d,l*D+d,w) if l*D+d<32 else z3.BitVecVal(0,1)) for d in range(D) for l in range(32)]
    c.lemma("lemma",f"extract(deposit(c)) == c (D={D})",pre+depc+exof(dep),z3.And(*[ex[d]==cs[d] for d in range(D)]))
    lim=[z3.ULT(x,z3.BitVecVal(1<<(nb*D),32))] if nb*D<32 else []
    depe=[z3.Extract(i,i,dep)==(z3.Extract(i//D,i//D,ex[i%D]) if i//D<nb else z3.BitVecVal(0,1)) for i in range(32)]
    c.lemma("lemma",f"deposit(extract(x)) == x (D={D})",lim+exof(x)+depe,dep==x)

def replay(N,refuted,unknown,errors):
    mods=[]
    for o in refuted:
        if o.get("model"): mods.append(o["model"])
    args=[N.seed,200000 if N.tier=="quick" else 5000000]
    for m in mods[:50]:
        if "x" in m: args+=["x",m["x"]]
        elif "c0" in m: args+=["c",len(m)]+[m[f"c{d}"] for d in range(len(m))]
    N.drive("morton.cpp",args,what="deposit/extract against a bit-by-bit interleaving, solver values and random words, D=1..5",timeout=120)
    N.drive("morton.cpp",args,defs=["USE_BMI2"],extra=["-mbmi2"],what="same, BMI2 implementation",timeout=120)
RULE="32-bit words and coordinate tuples: verifier counterexamples, all single-bit words, random; non-trivial if not zero"
ASSUMPTIONS=["pdep/pext (BMI2) behave as Intel specifies; the mask is a compile-time constant"]
EXPLANATION="Bit-vector contracts: every output bit of deposit and extract is one named obligation over all inputs; no bound. Inverse laws are lemmas over the two contracts."
