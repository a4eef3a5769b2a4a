"""Specification functions (independent mathematics) and contracts shared by the property modules."""
import z3
from .sym import *
PI_D=Fraction(3.14159265358979323846)     # the double the code calls pi
IS=z3.IntSort; RS=z3.RealSort
def first(D,l): return ((1<<(D*l))-1)//((1<<D)-1)
def maxlevel(D): return 31//D if D>1 else 30
# ---- Morton coordinates (contract proved bit by bit in C01)
def EXT(D,d): return UF(f"coord{D}_{d}",IS(),IS())
def MORT(D): return UF(f"morton{D}",*([IS()]*(D+1)))
def shape(eng,ty,vals):
    """the vals (32-bit I) in the shape the ABI uses for std::array<uint32_t,D>"""
    def pack(ty,vs):
        if ty.kind=="int" and ty.w==32: return vs[0],vs[1:]
        if ty.kind=="int" and ty.w==64: return M([(0,4,vs[0]),(4,4,vs[1])],8),vs[2:]
        if ty.kind=="struct":
            out=[]
            for e in ty.els: x,vs=pack(e,vs); out.append(x)
            return A(out),vs
        if ty.kind=="array":
            out=[]
            for _ in range(ty.n): x,vs=pack(ty.el,vs); out.append(x)
            return A(out),vs
        raise Unsupported(f"return shape {ty}")
    return pack(ty,vals)[0]
def h_extract(D,lo_level=None):
    """contract of BitManipulation<D>::extract on level-local cell indices below 2^(D*l): coordinates below 2^l (C01: l bits each)"""
    def h(eng,st,args,inst):
        x=eng.wrapu(st,args[-1]); vals=[]
        for d in range(D):
            t=EXT(D,d)(toZ(x)); v=I(32,t,0,(1<<32)-1); st.pc+=[t>=0,t<(1<<32)]
            for l in range(0,32//D+1):      # x < 2^(D*l) => every coordinate < 2^l   (C01: bit i of coordinate d is bit i*D+d of x)
                if lo_level is not None and l!=lo_level: continue
                st.pc.append(z3.Implies(toZ(x)<(1<<(D*l)),t<(1<<l)))
            vals.append(v)
        if len(args)==2:
            for d in range(D): st.mem[args[0].r.id][(args[0].o+4*d,4)]=vals[d]; eng.note_write((args[0].r.id,(args[0].o+4*d,4)))
            return UNDEF
        return shape(eng,inst.ty,vals)
    return h
def h_deposit(D):
    """contract of BitManipulation<D>::deposit: requires coordinates below 2^floor(32/D)"""
    def h(eng,st,args,inst):
        cs=[]
        for d in range(D):
            t=llvmc.Ty(); t.kind="int"; t.w=32; t.size=4
            cs.append(eng.wrapu(st,eng.load(st,eng.padd(args[0],4*d),t)))
        for d,c in enumerate(cs): eng.oblige(st,f"deposit: coordinate {d} fits in {32//D} bits",LT(c,1<<(32//D)),"pre")
        r=MORT(D)(*[toZ(c) for c in cs]); st.pc+=[r>=0,r<(1<<32)]
        for d in range(D): st.pc.append(EXT(D,d)(r)==toZ(cs[d]))         # C01: extract inverts deposit
        for l in range(0,32//D+1): st.pc.append(z3.Implies(z3.And(*[toZ(c)<(1<<l) for c in cs]),r<(1<<(D*l))))
        return I(32,r,0,(1<<32)-1)
    return h
def h_cellOfLevel(D,l):
    def h(eng,st,args,inst):
        c=eng.wrapu(st,args[0])
        eng.oblige(st,f"cellOfLevel is asked about a cell of level {l}",AND(LE(first(D,l),c),LT(c,first(D,l+1))),"pre")
        t=simp(toZ(c)-first(D,l)); return I(32,conc(t) if conc(t) is not None else t,0,(1<<(D*l))-1)
    return h
def circ(a,b,n):
    """circular distance of integers modulo n"""
    d=z3.If(a>=b,a-b,b-a); return z3.If(d<=n-d,d,n-d)
def circr(a,b,n=1): 
    d=z3.If(a>=b,a-b,b-a); return z3.If(d<=n-d,d,n-d)
def zmax(*a):
    r=a[0]
    for x in a[1:]: r=z3.If(x>r,x,r)
    return r
def zmin(*a):
    r=a[0]
    for x in a[1:]: r=z3.If(x<r,x,r)
    return r
def as_bool(eng,st,v):
    if isinstance(v,B): return toZ(v.t)
    return toZ(EQ(eng.wrapu(st,v),1)) if isinstance(v,I) else v.t
