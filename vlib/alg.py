"""Real arithmetic of monomials.

Products, quotients and powers of positive quantities are brought into the normal form  sum of coefficient * product of atom^exponent  (exponents are Laurent polynomials in one
parameter alpha); a product of atoms that is not a number becomes one uninterpreted function application M_<exponents>(atoms), so that what is left to the solver is linear arithmetic
with uninterpreted functions.  Every rewriting is an identity of the reals for positive atoms (an atom is only divided by or raised to a power once it is known to be positive), and
replacing the products by uninterpreted functions only forgets facts, so whatever is proved holds for the reals."""
import z3
from fractions import Fraction
from vlib.sym import toZ,toR,UF,IS,RS,conc
ONE=((0,Fraction(1)),)
def E_(d): return tuple(sorted((k,v) for k,v in d.items() if v!=0))
def eadd(a,b):
    d=dict(a)
    for k,v in b: d[k]=d.get(k,0)+v
    return E_(d)
def emul(a,b):
    d={}
    for k,v in a:
        for l,w in b: d[k+l]=d.get(k+l,0)+v*w
    return E_(d)
def eneg(a): return tuple((k,-v) for k,v in a)
def eint(a):
    """integer value of a constant exponent"""
    if a==(): return 0
    return int(a[0][1]) if len(a)==1 and a[0][0]==0 and a[0][1].denominator==1 else None
class Alg:
    def __init__(T,E,structural,alpha=None):
        """structural: positive quantities that occur in few shapes only; alpha: the parameter allowed in exponents (positive, not 1)"""
        T.E=E; T.atom={}; T.cache={}; T.mono_of={}; T.struct=set(); T.posok=set(); T.names={}; T.alpha=alpha; T.rename={}; T.keep=[]; T.defs={}; T.normed={}; T.named=[]
        for x in structural: T.struct.add(T.key(x))
        T.two=z3.Real("two"); T.struct.add(T.key(T.two)); T.am1=z3.Real("alpha-1"); T.struct.add(T.key(T.am1))
        if alpha is not None: T.struct.add(T.key(alpha))
        T.sym=set(); T.raised=lambda x: None        # x^alpha as an atom
        if alpha is not None: E.axioms.append(alpha==T.am1+1)
    def key(T,x): T.atom[x.get_id()]=x; return x.get_id()
    # ---- polynomials
    def const(T,f): return {} if f==0 else {():Fraction(f)}
    def at(T,x): return {((T.key(x),ONE),):Fraction(1)}
    def add(T,a,b,k=1):
        d=dict(a)
        for m,c in b.items():
            d[m]=d.get(m,0)+k*c
            if d[m]==0: del d[m]
        return d
    def mm(T,a,b):
        d=dict(a)
        for k,e in b: d[k]=eadd(d.get(k,()),e)
        d={k:e for k,e in d.items() if e!=()}; c=Fraction(1); two=T.two.get_id()
        if two in d and eint(d[two]) is not None: c=Fraction(2)**eint(d.pop(two))
        return tuple(sorted(d.items())),c
    def mul(T,a,b):
        r={}
        for m,c in a.items():
            for n,d in b.items():
                k,f=T.mm(m,n); r[k]=r.get(k,0)+c*d*f
                if r[k]==0: del r[k]
        am=T.am1.get_id()
        if T.alpha is not None:        # alpha = (alpha-1)+1 as a factor
            for m in list(r):
                e=dict(m).get(T.alpha.get_id()); n=eint(e) if e is not None else None
                if n is not None and n>0:
                    c=r.pop(m); rest=tuple(x for x in m if x[0]!=T.alpha.get_id()); p={rest:c}
                    for _ in range(n): p=T.mul(p,{((am,ONE),):Fraction(1),():Fraction(1)})
                    r=T.add(r,p)
        return r
    def poly(T,t):
        i=t.get_id()
        if i in T.cache: return T.cache[i][1]
        r=T.poly_(t); T.cache[i]=(t,r); return r
    def poly_(T,t):
        if z3.is_rational_value(t): return T.const(t.as_fraction())
        if t.get_id() in T.defs: return T.defs[t.get_id()][1]
        if T.alpha is not None and t.eq(T.alpha): return {((T.key(T.am1),ONE),):Fraction(1),():Fraction(1)}
        k=t.decl().kind()
        if k==z3.Z3_OP_ADD:
            r={}
            for x in t.children(): r=T.add(r,T.poly(x))
            return r
        if k==z3.Z3_OP_SUB:
            ch=t.children(); r=T.poly(ch[0])
            for x in ch[1:]: r=T.add(r,T.poly(x),-1)
            return r
        if k==z3.Z3_OP_UMINUS: return T.add({},T.poly(t.arg(0)),-1)
        if k==z3.Z3_OP_MUL:
            r=T.const(1)
            for x in t.children(): r=T.mul(r,T.poly(x))
            return r
        if k==z3.Z3_OP_DIV:
            a,b=T.poly(t.arg(0)),T.poly(t.arg(1)); q=T.quot(a,b,None)
            if q is not None: return q
        if k==z3.Z3_OP_TO_REAL:
            c=conc(z3.simplify(t.arg(0)))
            if c is not None: return T.const(c)
            if z3.is_add(t.arg(0)) or z3.is_mul(t.arg(0)) and z3.is_int_value(t.arg(0).arg(0)):
                a=t.arg(0); ch=[z3.ToReal(x) if not z3.is_int_value(x) else z3.RealVal(x.as_long()) for x in a.children()]
                if z3.is_add(a): 
                    r={}
                    for x in ch: r=T.add(r,T.poly(x))
                    return r
                r=T.const(1)
                for x in ch: r=T.mul(r,T.poly(x))
                return r
        if k==z3.Z3_OP_UNINTERPRETED and t.decl().name() in T.mono_of:
            return T.mono_of[t.decl().name()](t.children())
        if k==z3.Z3_OP_UNINTERPRETED and t.decl().name() in T.rename: return T.poly(T.rename[t.decl().name()](*t.children()))
        if k==z3.Z3_OP_ITE:
            x,y=T.poly(t.arg(1)),T.poly(t.arg(2))
            if x==y: return x
            r=z3.simplify(z3.If(t.arg(0),T.term(x),T.term(y)))
            return T.at(r) if z3.is_app_of(r,z3.Z3_OP_ITE) else T.poly(r)
        return T.at(t)
    def define(T,t,p): T.defs[t.get_id()]=(t,p)
    # ---- back to terms
    def term(T,p):
        if not p: return z3.RealVal(0)
        out=[]
        for m,c in sorted(p.items(),key=str):
            x=T.mono(m); out.append(z3.RealVal(c) if x is None else x if c==1 else z3.RealVal(c)*x)
        r=z3.simplify(z3.Sum(*out) if len(out)>1 else out[0]); T.cache.setdefault(r.get_id(),(r,p)); return r
    def mono(T,m):
        if not m: return None
        if len(m)==1 and m[0][1]==ONE: return T.atom[m[0][0]]
        st=[(k,e) for k,e in m if k in T.struct]; args=[]
        for k,e in m:
            if k in T.struct: continue
            n=eint(e)
            args+= [(ONE,T.atom[k])]*n if n is not None and 0<n<=3 else [(e,T.atom[k])]
        args.sort(key=lambda x:(str(x[0]),x[1].sexpr())); es=tuple(e for e,_ in args)
        sh=lambda e:"+".join(f"{v}a{k}" if k else str(v) for k,v in e)
        nm="M["+" ".join(f"{T.atom[k]}^{sh(e)}" for k,e in st)+"|"+" ".join(sh(e) for e in es)+"]"
        if nm not in T.mono_of:
            def back(ch,st=tuple(st),es=es):
                r={tuple(sorted(st)):Fraction(1)}
                for e,x in zip(es,ch): r=T.mul(r,{((T.key(x),e),):Fraction(1)} if len(T.poly(x))!=1 or e!=ONE else T.poly(x))
                return r
            T.mono_of[nm]=back
        odd=any(k==T.am1.get_id() and not(eint(e) is not None and eint(e)%2==0) for k,e in st)
        if not args:
            r=z3.Real(nm)
            if not odd: T.positive(r)
            return r
        f=UF(nm,*([RS()]*len(args)),RS()); xs=[x for _,x in args]; r=f(*xs)
        if r.get_id() not in T.sym:
            T.sym.add(r.get_id()); T.keep.append(r)
            for i in range(len(xs)-1):
                if es[i]==es[i+1] and not xs[i].eq(xs[i+1]):
                    ys=list(xs); ys[i],ys[i+1]=ys[i+1],ys[i]; T.E.axioms.append(r==f(*ys)); T.sym.add(f(*ys).get_id()); T.keep.append(f(*ys))
            pos=[x>0 for x in xs]
            if not odd: T.E.axioms.append(z3.Implies(z3.And(*pos),r>0))
        return r
    def positive(T,r):
        if r.get_id() not in T.sym: T.sym.add(r.get_id()); T.keep.append(r); T.E.axioms.append(r>0)
    # ---- operations
    def known_pos(T,m,st):
        for k,e in m:
            if k in T.struct: 
                if k==T.am1.get_id(): return False
                continue
            x=T.atom[k]
            if st is None or not T.E.provable(st,x>0): return False
        return True
    def inv(T,p,st,zero_ok=False):
        """1/p for a monomial of nonzero atoms"""
        if len(p)!=1:
            if T.alpha is not None and len(p)==2:
                a=T.poly(T.alpha)
                for s in(1,-1):
                    if all(p.get(m)==s*c for m,c in a.items()): return {((T.key(T.alpha),eneg(ONE)),):Fraction(s)}
            return None
        (m,c),=p.items()
        if c==0: return None
        if not T.known_pos(tuple(x for x in m if x[0]!=T.am1.get_id()),st): return None
        return {tuple((k,eneg(e)) for k,e in m):1/c}
    def quot(T,a,b,st):
        i=T.inv(b,st); return None if i is None else T.mul(a,i)
    def canon(T,st,t):
        """t with variables that provably are one of the named quantities replaced by it"""
        p=T.poly(t)
        if st is None or not T.named: return p
        for m,c in list(p.items()):
            for k,e in m:
                x=T.atom[k]
                if k in T.struct or any(x.eq(y) for y in T.named) or not(z3.is_const(x) and x.decl().kind()==z3.Z3_OP_UNINTERPRETED): continue
                y=next((y for y in T.named if T.E.provable(st,x==y)),None)
                if y is None: continue
                r={}
                for m2,c2 in p.items(): e2=dict(m2).get(k); r=T.add(r,{m2:c2} if e2 is None else T.mul({tuple(z for z in m2 if z[0]!=k):c2},{((T.key(y),e2),):Fraction(1)}))
                return T.canon(st,T.term(r))
        return p
    def times(T,st,x,y): return T.term(T.mul(T.canon(st,x),T.canon(st,y)))
    def over(T,st,x,y):
        q=T.quot(T.canon(st,x),T.canon(st,y),st)
        return None if q is None else T.term(q)
    def expo(T,p):
        """polynomial -> exponent"""
        r=(); al=T.alpha.get_id() if T.alpha is not None else None
        for m,c in p.items():
            e=((0,c),)
            for k,x in m:
                n=eint(x)
                if n is None: return None
                if k==al: e=emul(e,((n,Fraction(1)),))
                elif k==T.am1.get_id() and n>0:
                    for _ in range(n): e=emul(e,E_({1:Fraction(1),0:Fraction(-1)}))
                else: return None
            r=eadd(r,e)
        return r
    def power(T,st,x,y):
        p=T.canon(st,x); e=T.expo(T.canon(st,y))
        if e is None: return None
        if e==(): return z3.RealVal(1)
        n=eint(e)
        if n is not None and n>0:
            r=T.const(1)
            for _ in range(n): r=T.mul(r,p)
            return T.term(r)
        if len(p)!=1: return None
        (m,c),=p.items(); d={}
        if c<=0 or not T.known_pos(m,st): return None
        k=0
        while c.denominator%2==0: c*=2; k-=1
        while c.numerator%2==0: c/=2; k+=1
        if c!=1: return None
        for a,x_ in m:
            v=emul(x_,e); y=T.raised(T.atom[a])
            if y is not None:
                up=[(k-1,f) for k,f in v if k>0]
                if up and all(k==0 for k,f in up): d[T.key(y)]=eadd(d.get(T.key(y),()),tuple(up)); v=tuple((k,f) for k,f in v if k<=0)
            if v!=(): d[a]=v
        if k: d[T.two.get_id()]=eadd(d.get(T.two.get_id(),()),emul(((0,Fraction(k)),),e))
        m2,f=T.mm((),tuple(sorted(d.items()))); return T.term({m2:f})
    def compare(T,st,p,x,y):
        """comparison of two positive monomials: their quotient with 1"""
        a,b=T.poly(x),T.poly(y)
        if len(a)!=1 or len(b)!=1 or (not a and not b): return None
        (m,c),=a.items(); (n,d),=b.items()
        if c<=0 or d<=0 or len(m)+len(n)<2 or (len(m)==1 and not n and m[0][1]==ONE) or (len(n)==1 and not m and n[0][1]==ONE): return None
        if len(m)==1 and len(n)==1 and m[0][1]==ONE and n[0][1]==ONE: return None
        if not(T.known_pos(m,st) and T.known_pos(n,st)): return None
        q=T.quot(a,b,st)
        if q is None or len(q)!=1: return None
        (k,f),=q.items(); ex=[e for a_,e in k if a_ not in T.struct]
        if ex and all(e[0][1]<0 for e in ex) or not ex and k and k[0][1][0][1]<0: q=T.inv(q,st); p={"lt":"gt","gt":"lt","le":"ge","ge":"le"}.get(p,p)
        t=T.term(q); one=z3.RealVal(1)
        return {"eq":t==one,"ne":t!=one,"lt":t<one,"le":t<=one,"gt":t>one,"ge":t>=one}[p]
    def norm(T,g):
        """a formula with its real arithmetic in normal form"""
        if isinstance(g,bool): return g
        i=g.get_id(); r=T.normed.get(i)
        if r is None: r=T.normed[i]=(g,T.norm_(g))
        return r[1]
    def norm_(T,g):
        if z3.is_bool(g):
            k=g.decl().kind()
            if k in(z3.Z3_OP_EQ,z3.Z3_OP_LE,z3.Z3_OP_GE,z3.Z3_OP_LT,z3.Z3_OP_GT,z3.Z3_OP_DISTINCT) and z3.is_real(g.arg(0)):
                x,y=[T.term(T.poly(a)) for a in g.children()]
                return {z3.Z3_OP_EQ:lambda:x==y,z3.Z3_OP_LE:lambda:x<=y,z3.Z3_OP_GE:lambda:x>=y,z3.Z3_OP_LT:lambda:x<y,z3.Z3_OP_GT:lambda:x>y,z3.Z3_OP_DISTINCT:lambda:x!=y}[k]()
            if k in(z3.Z3_OP_AND,z3.Z3_OP_OR,z3.Z3_OP_NOT,z3.Z3_OP_IMPLIES,z3.Z3_OP_ITE) or k==z3.Z3_OP_EQ and z3.is_bool(g.arg(0)):
                ch=[T.norm(x) for x in g.children()]
                return {z3.Z3_OP_AND:lambda:z3.And(*ch),z3.Z3_OP_OR:lambda:z3.Or(*ch),z3.Z3_OP_NOT:lambda:z3.Not(*ch),z3.Z3_OP_IMPLIES:lambda:z3.Implies(*ch),z3.Z3_OP_ITE:lambda:z3.If(*ch),z3.Z3_OP_EQ:lambda:ch[0]==ch[1]}[k]()
        return g
