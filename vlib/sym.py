"""Verification-condition generator over LLVM IR extracted from /repo's real sources.

A function under contract is executed symbolically from its precondition: every path is followed, calls are replaced by
the callee's contract (precondition = obligation, postcondition = assumption), loops are cut at inductive invariants
(unless the loop's trip count is a constant of the code, in which case it is unrolled completely), and the
postcondition, array bounds, division by zero, shift ranges and (optionally) signed overflow become obligations.

Machine integers are mathematical integers with explicit wrap-around: a value is kept unwrapped and is reduced modulo
2^w wherever the machine looks at it (comparison, division, widening, shift, index, call), unless the solver
proves that it is already in range.  'bv' mode uses bit-vectors instead.  double is treated as a real number."""
import operator
import z3, re, time, itertools
from fractions import Fraction
from . import llvmc
from .llvmc import Ref, Const

class Unsupported(Exception): pass
class Fork(Exception):
    def __init__(s, cond): s.cond=cond
class Dead(Exception): pass

# ------------------------------------------------------------------ values
class I:      # integer of width w, unwrapped mathematical value t (python int or z3 Int), interval [lo,hi] of t
    __slots__=("w","t","lo","hi")
    def __init__(s,w,t,lo=None,hi=None):
        s.w=w; s.t=t
        if isinstance(t,int): lo=hi=t
        s.lo=lo; s.hi=hi
    def __repr__(s): return f"I{s.w}({s.t})"
class B:      # i1
    __slots__=("t",)
    def __init__(s,t): s.t=t
    def __repr__(s): return f"B({s.t})"
class V:      # bit-vector
    __slots__=("w","t")
    def __init__(s,w,t): s.w=w; s.t=t
    def __repr__(s): return f"V{s.w}({s.t})"
class R:      # double as real
    __slots__=("t",)
    def __init__(s,t): s.t=t
    def __repr__(s): return f"R({s.t})"
class P:      # pointer
    __slots__=("r","o")
    def __init__(s,r,o=0): s.r=r; s.o=o
    def __repr__(s): return f"P({s.r},{s.o})"
class A:      # aggregate
    __slots__=("v",)
    def __init__(s,v): s.v=list(v)
    def __repr__(s): return f"A({s.v})"
class M:      # multi-cell bit pattern: list of (off,size,val)
    __slots__=("v","size")
    def __init__(s,v,size): s.v=v; s.size=size
    def __repr__(s): return f"M({s.v})"
class U:
    def __repr__(s): return "undef"
class FN:
    __slots__=("f",)
    def __init__(s,f): s.f=f
UNDEF=U()
NULL=P(None,0)

class Region:
    n=0
    def __init__(s,name,kind,stride=1,fields=None,fam=None,key=None):
        Region.n+=1; s.id=Region.n; s.name=name; s.kind=kind; s.stride=stride; s.fields=fields or {}; s.fam=fam; s.key=key
        s.subs=[]     # embedded arrays: (base,stride,count)
        s.hooks={}    # field -> list of f(eng,st,idx,val) adding facts on load
        s.bounds=True
        s.readonly=False
        s.lazy=None   # f(eng,st,off,size,ty)->value for opaque objects
    def __repr__(s): return s.name

class State:
    __slots__=("env","mem","pc","q","g","ks","tags","trace")
    def __init__(s):
        s.env={}; s.mem={}; s.pc=[]; s.q=[]; s.g={}; s.ks={}; s.tags={}; s.trace=()
    def copy(s):
        n=State(); n.env=dict(s.env); n.mem={k:dict(v) for k,v in s.mem.items()}; n.pc=list(s.pc); n.q=list(s.q); n.g=dict(s.g); n.ks=dict(s.ks); n.tags=dict(s.tags); n.trace=s.trace
        return n

def isc(t): return isinstance(t,(int,bool,Fraction))
def simp(t): return t if isc(t) else z3.simplify(t)
def toZ(t):
    if isinstance(t,bool): return z3.BoolVal(t)
    if isinstance(t,int): return z3.IntVal(t)
    if isinstance(t,Fraction): return z3.RealVal(str(t)) if t.denominator!=1 else z3.RealVal(t.numerator)
    return t
def toR(t):
    if isinstance(t,Fraction): return toZ(t)
    if isinstance(t,int): return z3.RealVal(t)
    return z3.ToReal(t) if t.sort()==z3.IntSort() else t
def conc(t):
    """python value of a term if it is a literal"""
    if isc(t): return t
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    if z3.is_int_value(t): return t.as_long()
    if z3.is_bv_value(t): return t.as_long()
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    return None
def tryconc(t):
    c=conc(t)
    if c is not None: return c
    if isc(t): return t
    s=z3.simplify(t); c=conc(s)
    return c
def AND(*a):
    a=[x for x in a if x is not True]
    if any(x is False for x in a): return False
    return True if not a else (a[0] if len(a)==1 else z3.And(*a))
def OR(*a):
    a=[x for x in a if x is not False]
    if any(x is True for x in a): return True
    return False if not a else (a[0] if len(a)==1 else z3.Or(*a))
def NOT(a): return (not a) if isinstance(a,bool) else z3.Not(a)
def IMP(a,b): return OR(NOT(a),b)
def ITE(c,a,b):
    if isinstance(c,bool): return a if c else b
    return z3.If(c,toZ(a) if not isinstance(a,z3.ExprRef) else a,toZ(b) if not isinstance(b,z3.ExprRef) else b)
def ITEr(c,a,b):
    if isinstance(c,bool): return a if c else b
    return z3.If(c,toR(a),toR(b))
def b2i(c): return (1 if c else 0) if isinstance(c,bool) else z3.If(c,z3.IntVal(1),z3.IntVal(0))
def EQ(a,b):
    if isc(a) and isc(b): return a==b
    return toZ(a)==toZ(b)
def LE(a,b):
    if isc(a) and isc(b): return a<=b
    return toZ(a)<=toZ(b)
def LT(a,b):
    if isc(a) and isc(b): return a<b
    return toZ(a)<toZ(b)

INF=z3.Real("INF")
UFS={}
def UF(name,*sorts):
    if name not in UFS: UFS[name]=z3.Function(name,*sorts)
    return UFS[name]
def rfun(name,n): return UF(name,*([z3.RealSort()]*(n+1)))
RS=z3.RealSort; IS=z3.IntSort
POW2=z3.Function("pow2",z3.IntSort(),z3.IntSort())   # 2^k, axiomatised on demand

def base_name(d):
    """demangled name without template arguments, parameters, clones"""
    clone=""
    m=re.search(r" \[clone ([^\]]*)\]",d)
    if m: clone=m.group(1); d=d[:m.start()]
    out=[]; depth=0; i=0; n=len(d); par=0
    d0=d
    while i<n:
        if d.startswith("operator",i) and (i==0 or not (d[i-1].isalnum() or d[i-1]=="_")):
            m=re.match(r"operator(\(\)|\[\]|<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>|[^\s\w(<]+|\s*new\[\]|\s*delete\[\]|\s*new|\s*delete|\s+[\w:]+)",d[i:])
            if m:
                if depth==0 and par==0: out.append(m.group(0))
                i+=m.end(); continue
        c=d[i]
        if c in "<": depth+=1
        elif c==">" : depth-=1
        elif depth==0:
            if c=="(":
                # anonymous namespace / lambda / local function
                if d.startswith("(anonymous namespace)",i) and par==0:
                    out.append("(anon)"); i+=len("(anonymous namespace)"); continue
                par+=1
            elif c==")":
                par-=1
            elif c=="{" and par==0:
                j=d.index("}",i); mm=re.match(r"\{lambda\(.*?\)#(\d+)\}|\{lambda.*#(\d+)\}",d[i:j+1]); k=""
                # skip nested braces
                lvl=0; j=i
                while j<n:
                    if d[j]=="{": lvl+=1
                    elif d[j]=="}":
                        lvl-=1
                        if lvl==0: break
                    j+=1
                num=re.search(r"#(\d+)\}$",d[i:j+1]); out.append("{lambda#%s}"%(num.group(1) if num else "?")); i=j+1; continue
            elif par==0: out.append(c)
        i+=1
    s="".join(out).strip()
    s=re.sub(r"\s+const(?=::|$)","",s)
    # drop leading return type
    parts=s.split(" ")
    if len(parts)>1 and "operator" not in parts[-1]: s=parts[-1]
    elif len(parts)>1:
        k=s.find("operator"); pre=s[:k].split(" ")[-1]; s=pre+s[k:]
    s=s.strip().lstrip("*&")
    if clone: s+="."+clone
    return s

class Obl:
    __slots__=("fn","name","hyp","goal","loc","status","backend","time","model","kind","trace","qh")
    def __init__(s,fn,name,hyp,goal,loc,kind,trace=(),qh=()):
        s.fn=fn; s.name=name; s.hyp=hyp; s.goal=goal; s.loc=loc; s.kind=kind; s.status=None; s.backend=None; s.time=0.0; s.model=None; s.trace=trace; s.qh=qh

class LongLoop(Exception):
    def __init__(s,F,h): s.F=F; s.h=h
class Schema:
    """loop invariant for every index of an array: q(M,i) is the statement for index i, arr(M) the array.  It is proved for one arbitrary index and afterwards used at every index that is read"""
    Q=z3.Int("any_index")
    def __init__(s,arr,q): s.arr=arr; s.q=q
    def __call__(s,M): return s.q(M,Schema.Q)
    def know(s,M,st):
        a=s.arr(M)
        if a is not None: st.tags["schemas"]=st.tags.get("schemas",())+((a,lambda i:s.q(M,i)),)
class LoopView:
    """what an invariant template sees: the state at a loop header"""
    def __init__(s,eng,F,h,st,K,entry,outer,ctx):
        s.eng=eng; s.F=F; s.h=h; s.st=st; s.K=K; s.entry=entry; s.outer=outer; s.ctx=ctx
    def g(s,name): return s.st.g[name]
    def g0(s,name): return s.entry.g[name]
    def phis(s,kind=None):
        r=[]
        for p in s.F.blocks[s.h].phis:
            v=s.st.env.get(p.id)
            if kind is None or isinstance(v,kind): r.append((p,v))
        return r
    def phi0(s,p): return s.entry.env.get(p.id)
    def ints(s):
        """getters state->I of the loop's integer variables: phis and local cells it writes"""
        out=[]
        for p,v in s.phis(I): out.append(lambda S,i=p.id:S.env[i])
        for key in sorted((k for k in s.ctx.get("mods",()) if k[0]!="g" and isinstance(k[1],tuple) and isinstance(k[1][0],int)),key=str):
            v=s.entry.mem.get(key[0],{}).get(key[1])
            if isinstance(v,I) and s.eng.is_local(key[0]): out.append(lambda S,k=key:S.mem[k[0]][k[1]])
        return out

SLOW=dict(factor=1,unknown=0)     # solver time limits are multiplied by the factor; queries that ran into their limit
class Engine:
    def __init__(s, mod, mode="int", contracts=None, lib=None, timeout=10000, overflow=True, name=""):
        s.mod=mod; s.mode=mode; s.C=contracts or {}; s.lib=lib or {}; s.obls=[]; s.fresh_n=0; s.unaligned=set(); s.alg=None; s.dry=0; s.solver_time=0.0; s.nq=0
        s.timeout=timeout; s.overflow=overflow; s.assumed=set(); s.used_contracts=set(); s.templates=None; s.fn_name=name; s.writes=None
        s.houdini_log=[]; s.loop_stack=[]; s.maxunroll=1100; s.paths=0; s.curline=None; s.auto_cands=True; s.globals_={}; s.axioms=[]; s.unroll_all=False
        s.inv_obls=0; s.cut_loops=0; s.unrolled=0; s.reg_names={}; s.functions=set(); s.atomic=None; s.feas_timeout=400; s.memo={}; s.maxpaths=60000; s.cut_const=False; s.steps=0; s.max_steps=400000; s.hint=None
        s.locals_=set(); s.qf_timeout=2000; s.strict_div=True; s.depth=0
    init_arrays=False; DBG=None; mulhook=None; divhook=None; fdivhook=None; discovering=0; fast_discovery=False
    def is_local(s,rid): return rid in s.locals_
    # ---- fresh symbols
    def name(s,p): s.fresh_n+=1; return f"{p}!{s.fresh_n}"
    def fi(s,p,w=32,lo=0,hi=None):
        if hi is None: hi=(1<<w)-1
        return I(w,z3.Int(s.name(p)),lo,hi)
    def fb(s,p): return B(z3.Bool(s.name(p)))
    def fr(s,p): return R(z3.Real(s.name(p)))
    def fv(s,p,w): return V(w,z3.BitVec(s.name(p),w))
    def intfacts(s,v):
        if isinstance(v,I) and not isinstance(v.t,int): return [v.t>=v.lo, v.t<=v.hi]
        return []
    def sym_int(s,st,p,w=32,lo=0,hi=None):
        v=s.fi(p,w,lo,hi); st.pc+=s.intfacts(v); return v
    def element(s,st,v):
        """offset within the element a pointer into an array points at, if constant"""
        if not(isinstance(v,P) and v.r is not None and v.r.kind=="arr" and v.r.stride>1) or (v.r.id,) in s.unaligned: return None
        try: return s.split_off(st,v.r,v.o,1)[1]
        except Unsupported: return None
    def stays(s,F,st,a,b,eb):
        """a value that the loop header leaves arbitrary may be any number, but keeps its object, its function, its place within an array element"""
        if isinstance(a,FN) or isinstance(b,FN):
            if not(isinstance(a,FN) and isinstance(b,FN) and a.f is b.f): raise Unsupported("a loop changes a function pointer")
        elif isinstance(a,P):
            if not isinstance(b,P) or a.r is not b.r: raise Unsupported("a loop moves a pointer to another object")
            f=s.element(eb,a)
            if f is not None and s.element(st,b)!=f: s.unaligned.add((a.r.id,)); return True
        elif isinstance(a,(A,M)) and isinstance(b,(A,M)):
            for x,y in zip(a.v,b.v):
                if isinstance(a,M): x,y=x[2],y[2]
                if s.stays(F,st,x,y,eb): return True
        return False
    def fresh_like(s,st,v,p):
        if isinstance(v,I):
            if v.w>64: raise Unsupported("wide int")
            return s.sym_int(st,p,v.w)
        if isinstance(v,B): return s.fb(p)
        if isinstance(v,R): return s.fr(p)
        if isinstance(v,V): return s.fv(p,v.w)
        if isinstance(v,P):
            if v.r is None: return v
            x=z3.Int(s.name(p+"_off")); f=s.element(st,v)
            return P(v.r,x if f is None else v.r.stride*x+f)
        if isinstance(v,A): return A([s.fresh_like(st,x,p) for x in v.v])
        if isinstance(v,M): return M([(o,z,s.fresh_like(st,x,p)) for o,z,x in v.v],v.size)
        return v
    # ---- solver
    def solver(s,st,timeout,quant=True):
        S=z3.Solver(); S.set("timeout",int(timeout*SLOW["factor"]))
        S.add(*[x for x in s.axioms])
        S.add(*[x for x in st.pc if x is not True])
        if quant: S.add(*st.q)
        return S
    incremental=False; _inc=None
    def quick(s,st,f):
        """satisfiability of the path facts and f, reusing the solver state of the previous query on this path"""
        t0=time.time(); pc=[x for x in st.pc if x is not True]
        if s._inc is None or len(s._inc[1])>len(pc) or not all(map(operator.is_,s._inc[1],pc)): S=z3.Solver(); S.set("timeout",int(250*SLOW["factor"])); s._inc=(S,[],0)
        S,cur,na=s._inc; S.add(*s.axioms[na:]); S.add(*pc[len(cur):]); s._inc=(S,pc,len(s.axioms)); S.push()
        try: S.add(f); r=S.check()
        finally: S.pop()
        s.solver_time+=time.time()-t0; s.nq+=1; return r
    def provable(s,st,goal,timeout=None,quant=True):
        if isinstance(goal,bool): return goal
        g=z3.simplify(goal)
        if z3.is_true(g): return True
        key=None
        if s.incremental and not(quant and st.q):
            r=s.quick(st,z3.Not(goal))
            if r!=z3.unknown: return r==z3.unsat
        t0=time.time(); S=s.solver(st,timeout or s.qf_timeout,quant); S.add(z3.Not(goal)); r=S.check(); s.solver_time+=time.time()-t0; s.nq+=1; SLOW["unknown"]+=r==z3.unknown
        return r==z3.unsat
    def feasible(s,st,extra=None):
        if s.incremental:
            r=s.quick(st,extra if extra is not None else True)
            if r!=z3.unknown: return r!=z3.unsat
        t0=time.time(); S=s.solver(st,s.feas_timeout,False)
        if extra is not None: S.add(extra)
        r=S.check(); s.solver_time+=time.time()-t0; s.nq+=1; SLOW["unknown"]+=r==z3.unknown
        return r!=z3.unsat
    def decide(s,st,cond):
        """-> True/False if determined; otherwise Fork"""
        if isinstance(cond,bool): return cond
        c=z3.simplify(cond); k=conc(c)
        if k is not None: return k
        i=c.get_id()
        for p in st.pc[::-1]:
            if p is True: continue
            if p.eq(c) : return True
            if z3.is_not(p) and p.arg(0).eq(c): return False
            if z3.is_not(c) and c.arg(0).eq(p): return False
        raise Fork(c)
    def known(s,st,cond):
        """value of a condition that literally is (the negation of) a path fact"""
        c=z3.simplify(cond); k=conc(c)
        if k is not None: return k
        for p in st.pc[::-1]:
            if p is True: continue
            if p.eq(c): return True
            if z3.is_not(p) and p.arg(0).eq(c): return False
            if z3.is_not(c) and c.arg(0).eq(p): return False
        return None
    def assume(s,st,*facts):
        for f in facts:
            if f is True: continue
            if f is False: raise Dead()
            st.pc.append(f)
    def assume_q(s,st,f): st.q.append(f)
    SKIP=None      # obligations that belong to another property's check
    ONLY=None      # the obligations that belong to this property's check (None: all)
    def oblige(s,st,name,goal,kind="post",assume=True):
        if Engine.SKIP is not None and Engine.SKIP.search(name): return
        if Engine.ONLY is not None and not Engine.ONLY.search(name):
            if assume and goal is not True: st.pc.append(toZ(goal))    # proved in the check it belongs to
            return
        if goal is True:
            if not s.dry: s.obls.append(Obl(s.fn_name,name,[],z3.BoolVal(True),s.curline,kind))
            return
        goal=toZ(goal)
        if not s.dry:
            s.obls.append(Obl(s.fn_name,name,[x for x in s.axioms]+[x for x in st.pc if x is not True],goal,s.curline,kind,st.trace,list(st.q)))
        if assume: st.pc.append(goal)
    # ---- int helpers
    def in_range(s,st,v,lo,hi):
        if v.lo is not None and v.hi is not None and lo<=v.lo and v.hi<=hi: return True
        if isinstance(v.t,int): return lo<=v.t<=hi
        key=("rng",v.t.get_id(),lo,hi,len(st.pc),st.pc[-1].get_id() if st.pc and st.pc[-1] is not True else 0)
        if key in s.memo: return s.memo[key][0]
        r=s.provable(st,z3.And(v.t>=lo,v.t<=hi),s.qf_timeout if not s.dry else min(s.qf_timeout,300),quant=False)
        s.memo[key]=(r,v.t)
        return r
    def wrapu(s,st,v):
        """canonical unsigned value (python int / z3 Int)"""
        m=1<<v.w
        if isinstance(v.t,int): return v.t%m
        if s.in_range(st,v,0,m-1): return v.t
        if (v.hi is None or v.hi>=-m) and s.in_range(st,v,-m,-1): return v.t+m
        if s.in_range(st,v,m,2*m-1): return v.t-m
        if s.in_range(st,v,-m,2*m-1): return z3.If(v.t<0,v.t+m,z3.If(v.t>=m,v.t-m,v.t))
        return v.t%m
    def wraps(s,st,v):
        m=1<<v.w; h=m>>1
        if isinstance(v.t,int):
            x=v.t%m; return x-m if x>=h else x
        if s.in_range(st,v,-h,h-1): return v.t
        if s.in_range(st,v,0,m-1): return z3.If(v.t>=h,v.t-m,v.t)
        if s.in_range(st,v,-m,m-1): return z3.If(v.t>=h,v.t-m,z3.If(v.t<-h,v.t+m,v.t))
        return (v.t+h)%m-h
    def cu(s,st,v):
        t=s.wrapu(st,v); m=1<<v.w
        if v.lo is not None and v.hi is not None and 0<=v.lo and v.hi<m: return I(v.w,t,v.lo,v.hi)
        return I(v.w,t,0,m-1)
    # ---- memory
    def new_obj(s,st,name,cells=None):
        r=Region(name,"obj"); st.mem[r.id]=dict(cells or {}); s.reg_names[r.id]=r; return r
    def new_arr(s,st,name,stride,fields,length,init=None):
        """fields: {offset:(kind,w)} kind in 'int','real','bool','ptr'; length: term"""
        r=Region(name,"arr",stride,dict(fields)); m={"len":length}
        for fo,k in fields.items():
            if k[0]=="int": m[fo]=z3.Array(s.name(f"{name}.{fo}"),IS(),IS())
            elif k[0]=="real": m[fo]=z3.Array(s.name(f"{name}.{fo}"),IS(),RS())
            elif k[0]=="bv": m[fo]=z3.Array(s.name(f"{name}.{fo}"),IS(),z3.BitVecSort(k[1]))
            else: m[fo]=k[1]   # callable idx->P
        if init: m.update(init)
        st.mem[r.id]=m; s.reg_names[r.id]=r; return r
    def split_off(s,st,r,o,size_align):
        """byte offset -> (index term, field offset)"""
        sd=r.stride
        if isinstance(o,int): return o//sd, o%sd
        o=z3.simplify(o,som=True)
        while z3.is_app_of(o,z3.Z3_OP_ITE): o=z3.simplify(o.arg(1) if s.decide(st,o.arg(0)) else o.arg(2),som=True)
        terms=o.children() if z3.is_add(o) else [o]
        idx=[]; c=0
        for t in terms:
            if z3.is_int_value(t): c+=t.as_long(); continue
            k=1; rest=t
            if z3.is_mul(t) and z3.is_int_value(t.arg(0)):
                k=t.arg(0).as_long(); ch=t.children()[1:]; rest=ch[0] if len(ch)==1 else z3.Product(*ch)
            if k%sd==0: idx.append((k//sd)*rest if k//sd!=1 else rest)
            else:
                # opaque term: try to prove divisibility
                if s.provable(st,t%sd==0,quant=False): idx.append(t/sd)
                else: raise Unsupported(f"pointer offset {o} not a multiple of element size {sd} in {r}")
        q,f=divmod(c,sd)
        if q or not idx: idx.append(z3.IntVal(q))
        return z3.simplify(z3.Sum(*idx) if len(idx)>1 else idx[0]), f
    def mk(s,kind,t):
        if kind[0]=="int":
            w=kind[1]; lo,hi=(kind[2],kind[3]) if len(kind)>2 else (0,(1<<w)-1)
            if s.mode=="bv": return V(w,t)
            return I(w,t,lo,hi)
        if kind[0]=="bv": return V(kind[1],t)
        if kind[0]=="real": return R(t)
        raise Unsupported("field kind "+str(kind))
    def note_write(s,key):
        if s.writes is not None: s.writes.add(key)
    def load(s,st,p,ty,inst=None):
        if not isinstance(p,P) or p.r is None: raise Unsupported(f"load through {p}")
        r=p.r; size=ty.size
        if r.kind=="arr":
            idx,fo=s.split_off(st,r,p.o,size)
            if r.bounds:
                ln=st.mem[r.id]["len"]
                s.oblige(st,f"index in bounds of {r.name}",AND(LE(0,idx),LT(idx,ln)),"bounds")
            if ty.kind=="struct" or (fo not in r.fields):
                raise Unsupported(f"load {ty} at field {fo} of {r}")
            k=r.fields[fo]
            if k[0] not in("int","real","bv"):
                v=st.mem[r.id][fo](s,st,idx); return v
            s.instantiate(st,st.mem[r.id][fo],toZ(idx)); v=s.mk(k,z3.Select(st.mem[r.id][fo],toZ(idx)))
            if isinstance(v,I): st.pc+= [] if (k[0]!="int") else [v.t>=v.lo,v.t<=v.hi]
            for h in r.hooks.get(fo,()): h(s,st,idx,v)
            if size*8!=(k[1] if k[0] in("int","bv") else 64): raise Unsupported(f"load width mismatch at {r}+{fo}")
            return v
        if r.kind=="obj":
            o=p.o if isinstance(p.o,int) else tryconc(p.o)
            mem=st.mem[r.id]
            if o is None:
                for (base,sd,n) in r.subs:
                    ix=s.sub_index(st,p.o,base,sd,n)
                    if ix is not None:
                        s.oblige(st,f"index in bounds of {r.name}[{base}..]",AND(LE(0,ix),LT(ix,n)),"bounds")
                        k,arr=mem[("A",base)]; s.instantiate(st,arr,toZ(ix)); v=s.mk(k,z3.Select(arr,toZ(ix)))
                        if isinstance(v,I): st.pc+=[v.t>=v.lo,v.t<=v.hi]
                        return v
                # small constant object addressed symbolically: split cases
                cand=sorted(k for k in mem if isinstance(k,tuple) and isinstance(k[0],int) and k[1]==size)
                if cand and len(cand)<=64:
                    for (co,cs) in cand:
                        if s.decide(st,toZ(p.o)==co): return mem[(co,cs)]
                    s.oblige(st,f"access within {r.name}",False,"bounds"); raise Dead()
                raise Unsupported(f"symbolic offset {p.o} into {r}")
            if (o,size) in mem:
                v=mem[(o,size)]
                if v is UNDEF: v=mem[(o,size)]=s.default(st,ty,f"{r.name}+{o}")
                return s.retype(st,v,ty)
            for (base,sd,n) in r.subs:
                if base<=o<base+sd*n and (o-base)%sd==0:
                    if ("A",base) not in mem: break
                    k,arr=mem[("A",base)]; s.instantiate(st,arr,z3.IntVal((o-base)//sd)); v=s.mk(k,z3.Select(arr,z3.IntVal((o-base)//sd)))
                    if isinstance(v,I): st.pc+=[v.t>=v.lo,v.t<=v.hi]
                    return v
            parts=sorted([(co,cs) for (co,cs) in (k for k in mem if isinstance(k,tuple) and isinstance(k[0],int)) if co>=o and co+cs<=o+size])
            if parts: 
                return M([(co-o,cs,mem[(co,cs)]) for co,cs in parts],size)
            # part of a larger cell
            for (co,cs) in [k for k in mem if isinstance(k,tuple) and isinstance(k[0],int)]:
                if co<=o and o+size<=co+cs and isinstance(mem[(co,cs)],(I,V,M)):
                    v=mem[(co,cs)]
                    if isinstance(v,M):
                        for (mo,ms,mv) in v.v:
                            if mo==o-co and ms==size: return s.retype(st,mv,ty)
                        raise Unsupported("partial load of packed value")
                    return s.extract_bits(st,v,(o-co)*8,size*8)
            if r.lazy:
                v=r.lazy(s,st,o,size,ty); mem[(o,size)]=v; return v
            v=s.default(st,ty,f"{r.name}+{o}"); mem[(o,size)]=v   # uninitialised / unspecified content: arbitrary
            return v
        raise Unsupported(f"load from {r.kind}")
    def instantiate(s,st,arr,ix):
        """facts known for every index of an array (Schema), at the index read"""
        sc=st.tags.get("schemas")
        if not sc: return
        while True:
            for t,f,*deps in sc:
                if t.eq(arr):
                    g=f(ix)
                    if g is not None and g is not True: st.pc.append(g)
                    for d in deps: s.instantiate(st,d,ix)
            if z3.is_app_of(arr,z3.Z3_OP_STORE): arr=arr.arg(0)
            else: break
    def sub_index(s,st,o,base,sd,n):
        oz=z3.simplify(toZ(o)-base,som=True)
        if s.provable(st,z3.And(oz>=0,oz<sd*n),quant=False) or True:
            tmp=Region("t","arr",sd)
            try: ix,fo=s.split_off(st,tmp,oz,sd)
            except Unsupported: return None
            return ix if fo==0 else None
    def extract_bits(s,st,v,lo,w):
        if isinstance(v,V): return V(w,z3.Extract(lo+w-1,lo,v.t))
        t=s.wrapu(st,v)
        if isinstance(t,int): return I(w,(t>>lo)%(1<<w))
        x=t/(1<<lo) if lo else t
        return I(w,x%(1<<w),0,(1<<w)-1)
    def retype(s,st,v,ty):
        if ty.kind=="ptr" and not isinstance(v,(P,FN)): 
            if isinstance(v,I) and isinstance(v.t,int) and v.t==0: return NULL
            raise Unsupported(f"pointer load of {v}")
        if ty.kind=="int":
            if isinstance(v,P): return v       # pointer stored as integer
            if isinstance(v,R): raise Unsupported("int load of real")
            if isinstance(v,B) and ty.w!=1: return s.zext(st,v,ty.w)
            if isinstance(v,(I,V)) and v.w!=ty.w:
                if v.w==1: return s.zext(st,v,ty.w)
                raise Unsupported("width mismatch")
            if isinstance(v,M): return v
            if ty.w==1 and isinstance(v,I): return B(EQ(v.t,1))
        if ty.kind=="float" and isinstance(v,I) and isinstance(v.t,int) and v.t==0: return R(Fraction(0))
        return v
    def default(s,st,ty,nm):
        if ty.kind=="int":
            if ty.w==1: return s.fb(nm)
            return s.fv(nm,ty.w) if s.mode=="bv" else s.sym_int(st,nm,ty.w)
        if ty.kind=="float": return s.fr(nm)
        if ty.kind=="ptr":
            r=Region(nm,"obj"); st.mem[r.id]={}; return P(r,0)
        if ty.kind in("struct","array"):
            els=ty.els if ty.kind=="struct" else [ty.el]*ty.n
            return A([s.default(st,t,nm) for t in els])
        raise Unsupported("default of "+str(ty))
    def store(s,st,p,v,ty):
        if not isinstance(p,P) or p.r is None: raise Unsupported(f"store through {p}")
        r=p.r; size=ty.size
        if r.readonly: s.oblige(st,f"frame: no write to {r.name}",False,"frame"); raise Dead()
        if isinstance(v,A):
            offs=ty.offs if ty.kind=="struct" else [i*ty.el.size for i in range(ty.n)]; els=ty.els if ty.kind=="struct" else [ty.el]*ty.n
            for o,t,x in zip(offs,els,v.v): s.store(st,s.padd(p,o),x,t)
            return
        if r.kind=="arr":
            if isinstance(v,M):
                for mo,ms,mv in v.v:
                    t=llvmc.Ty(); t.size=ms; t.kind="int"; t.w=ms*8
                    s.store(st,s.padd(p,mo),mv,t)
                return
            idx,fo=s.split_off(st,r,p.o,size)
            if r.bounds: s.oblige(st,f"index in bounds of {r.name}",AND(LE(0,idx),LT(idx,st.mem[r.id]["len"])),"bounds")
            if fo not in r.fields: raise Unsupported(f"store at field {fo} of {r}")
            k=r.fields[fo]
            if k[0]=="int":
                if isinstance(v,B): v=s.zext(st,v,k[1])
                t=toZ(s.wrapu(st,v) if (len(k)<3 or k[2]>=0) else s.wraps(st,v))
            elif k[0]=="real": t=toR(v.t)
            elif k[0]=="bv": t=v.t
            else: raise Unsupported("store to pointer field")
            st.mem[r.id][fo]=z3.Store(st.mem[r.id][fo],toZ(idx),t); s.note_write((r.id,fo)); 
            for h in r.hooks.get(("w",fo),()): h(s,st,idx,v)
            return
        if r.kind=="obj":
            o=p.o if isinstance(p.o,int) else tryconc(p.o); mem=st.mem[r.id]
            if isinstance(v,M):
                for mo,ms,mv in v.v: s.clear(mem,o+mo,ms); mem[(o+mo,ms)]=mv; s.note_write((r.id,(o+mo,ms)))
                return
            for (base,sd,n) in r.subs:
                ix=None
                if o is not None:
                    if base<=o<base+sd*n and (o-base)%sd==0: ix=(o-base)//sd
                else: ix=s.sub_index(st,p.o,base,sd,n)
                if ix is not None:
                    s.oblige(st,f"index in bounds of {r.name}[{base}..]",AND(LE(0,ix),LT(ix,n)),"bounds")
                    if ("A",base) not in mem: mem[("A",base)]=s.sub_init(v,r.name,base)
                    k,arr=mem[("A",base)]
                    t=toR(v.t) if k[0]=="real" else (v.t if k[0]=="bv" else toZ(s.wrapu(st,v)))
                    mem[("A",base)]=(k,z3.Store(arr,toZ(ix),t)); s.note_write((r.id,("A",base))); return
            if o is None:
                cand=sorted(k for k in mem if isinstance(k,tuple) and isinstance(k[0],int) and k[1]==size)
                if cand and len(cand)<=64:
                    for (co,cs) in cand:
                        if s.decide(st,toZ(p.o)==co):
                            mem[(co,cs)]=v; s.note_write((r.id,(co,cs))); return
                raise Unsupported(f"symbolic store into {r}")
            if (o,size) not in mem: s.clear(mem,o,size)
            mem[(o,size)]=v; s.note_write((r.id,(o,size))); return
        raise Unsupported("store to "+r.kind)
    def sub_init(s,v,nm,base):
        if isinstance(v,R): return (("real",64),z3.Array(s.name(f"{nm}.{base}"),IS(),RS()))
        if isinstance(v,V): return (("bv",v.w),z3.Array(s.name(f"{nm}.{base}"),IS(),z3.BitVecSort(v.w)))
        if isinstance(v,I): return (("int",v.w),z3.Array(s.name(f"{nm}.{base}"),IS(),IS()))
        raise Unsupported("sub array element")
    def clear(s,mem,o,size):
        for k in [k for k in mem if isinstance(k,tuple) and isinstance(k[0],int) and k[0]<o+size and o<k[0]+k[1]]: del mem[k]
    def padd(s,p,o):
        if p.r is None: return p if (isinstance(o,int) and o==0) else P(None,o)
        if isinstance(o,int) and isinstance(p.o,int): return P(p.r,p.o+o)
        if isinstance(o,int) and o==0: return p
        return P(p.r,z3.simplify(toZ(p.o)+toZ(o),som=True))
    def memcpy(s,st,d,src,n):
        if isinstance(n,I): n=tryconc(n.t)
        if isinstance(n,V): n=tryconc(n.t)
        if n is None: raise Unsupported("memcpy of symbolic size")
        if n==0: return
        cells=s.read_cells(st,src,n)
        for off,size,v in cells:
            t=llvmc.Ty(); t.size=size; t.kind="x"; t.w=size*8
            s.store(st,s.padd(d,off),v,t)
    def read_cells(s,st,p,n):
        r=p.r
        if r is None: raise Unsupported("read via null")
        if r.kind=="obj":
            o=p.o if isinstance(p.o,int) else tryconc(p.o)
            if o is None: raise Unsupported("memcpy from symbolic offset")
            mem=st.mem[r.id]
            out=[(k[0]-o,k[1],mem[k]) for k in sorted(k for k in mem if isinstance(k,tuple) and isinstance(k[0],int) and k[0]>=o and k[0]+k[1]<=o+n)]
            return out
        if r.kind=="arr":
            idx,fo=s.split_off(st,r,p.o,1)
            if fo or n%r.stride: 
                if fo in r.fields and n==r.fields[fo][1]//8 if isinstance(r.fields.get(fo,(0,0))[1],int) else False: pass
                else: raise Unsupported("partial element memcpy")
            out=[]
            cnt=n//r.stride
            if cnt>4: raise Unsupported("bulk memcpy")
            for c in range(cnt):
                if r.bounds: s.oblige(st,f"index in bounds of {r.name}",AND(LE(0,simp(toZ(idx)+c)),LT(simp(toZ(idx)+c),st.mem[r.id]["len"])),"bounds")
                for f,k in sorted(r.fields.items(),key=lambda x:x[0]):
                    v=s.mk(k,z3.Select(st.mem[r.id][f],simp(toZ(idx)+c)))
                    if isinstance(v,I): st.pc+=[v.t>=v.lo,v.t<=v.hi]
                    for h in r.hooks.get(f,()): h(s,st,simp(toZ(idx)+c),v)
                    out.append((c*r.stride+f,k[1]//8,v))
            return out
        raise Unsupported("read_cells")
    # ---- operands
    def val(s,st,o,ty=None):
        if isinstance(o,Ref):
            v=st.env.get(o.id)
            if v is None: raise Unsupported("value used before definition")
            return v
        if isinstance(o,Const):
            t=o.ty
            if o.k=="int":
                if t.w==1: return B(bool(o.v))
                if s.mode=="bv": return V(t.w,z3.BitVecVal(o.v,t.w))
                v=o.v
                if v>=(1<<(t.w-1)): v-=1<<t.w
                return I(t.w,v)
            if o.k=="fp":
                import math
                if math.isinf(o.v): return R(INF if o.v>0 else -INF)
                if math.isnan(o.v): raise Unsupported("NaN constant")
                return R(s.fpconst(o.v))
            if o.k=="null": return NULL
            if o.k=="undef":
                return UNDEF if t.kind not in("struct","array") else A([UNDEF]*(len(t.els) if t.kind=="struct" else t.n))
            if o.k=="func": return FN(o.v)
            if o.k=="global":
                if o.v not in s.globals_:
                    r=Region("@"+o.v,"obj"); s.globals_[o.v]=r; 
                r=s.globals_[o.v]
                if r.id not in st.mem:
                    st.mem[r.id]={}
                    init,const,gt=s.mod.ginit(o.v)
                    if init is not None and const: s.init_global(st,r,0,init,gt)
                    r.readonly=const
                return P(r,0)
            if o.k=="zero": return s.zero(t)
            if o.k=="agg": return A([s.val(st,x) for x in o.v])
            if o.k=="gep":
                ty,ops=o.v; base=s.val(st,ops[0]); return s.gep(st,base,ty,[s.val(st,x) for x in ops[1:]])
            if o.k=="cexpr":
                oc,ops=o.v
                if oc in("bitcast","addrspacecast","ptrtoint"): return s.val(st,ops[0])
        raise Unsupported(f"operand {o}")
    def fpconst(s,x): 
        return Fraction(x)
    def init_global(s,st,r,off,c,t):
        if c.k=="agg":
            if t.kind=="array":
                for i,e in enumerate(c.v): s.init_global(st,r,off+i*t.el.size,e,t.el)
            else:
                for i,e in enumerate(c.v): s.init_global(st,r,off+t.offs[i],e,t.els[i])
        elif c.k in("int","fp","null","global","func"):
            try: st.mem[r.id][(off,t.size)]=s.val(st,c)
            except Unsupported: pass
    def zero(s,t):
        if t.kind=="int": return B(False) if t.w==1 else (V(t.w,z3.BitVecVal(0,t.w)) if s.mode=="bv" else I(t.w,0))
        if t.kind=="float": return R(Fraction(0))
        if t.kind=="ptr": return NULL
        if t.kind=="struct": return A([s.zero(x) for x in t.els])
        if t.kind=="array": return A([s.zero(t.el)]*t.n)
        raise Unsupported("zero")
    def idxval(s,st,v):
        """index operand as signed math int term"""
        if isinstance(v,I): return s.wraps(st,v)
        if isinstance(v,V):
            c=tryconc(v.t)
            if c is None: raise Unsupported("symbolic bit-vector index")
            return c-(1<<v.w) if c>=1<<(v.w-1) else c
        raise Unsupported(f"index {v}")
    def gep(s,st,base,ty,idx):
        if not isinstance(base,P): raise Unsupported(f"gep on {base}")
        off=0
        def add(a,b):
            if isinstance(a,int) and isinstance(b,int): return a+b
            return z3.simplify(toZ(a)+toZ(b),som=True)
        def mul(a,k):
            return a*k
        off=mul(s.idxval(st,idx[0]),ty.size); t=ty
        for i in idx[1:]:
            if t.kind=="struct":
                k=s.idxval(st,i); off=add(off,t.offs[k]); t=t.els[k]
            elif t.kind=="array":
                off=add(off,mul(s.idxval(st,i),t.el.size)); t=t.el
            else: raise Unsupported("gep type")
        return s.padd(base,off)
    # ---- arithmetic
    def iv(s,op,a,b):
        """interval of op on intervals (None = unknown)"""
        if None in (a.lo,a.hi,b.lo,b.hi): return None,None
        if op=="+": return a.lo+b.lo,a.hi+b.hi
        if op=="-": return a.lo-b.hi,a.hi-b.lo
        c=[a.lo*b.lo,a.lo*b.hi,a.hi*b.lo,a.hi*b.hi]; return min(c),max(c)
    def binop(s,st,n,a,b):
        op=n.op; w=n.ty.w
        if n.ty.kind=="float":
            return s.fbin(st,op,a,b)
        if isinstance(a,B) or isinstance(b,B):
            a_=a if isinstance(a,B) else B(EQ(s.wrapu(st,a),1)); b_=b if isinstance(b,B) else B(EQ(s.wrapu(st,b),1))
            if op=="and": return B(AND(a_.t,b_.t))
            if op=="or": return B(OR(a_.t,b_.t))
            if op=="xor":
                if isinstance(b_.t,bool): return B(NOT(a_.t) if b_.t else a_.t)
                if isinstance(a_.t,bool): return B(NOT(b_.t) if a_.t else b_.t)
                return B(z3.Xor(a_.t,b_.t))
            raise Unsupported("i1 "+op)
        if isinstance(a,P) or isinstance(b,P):
            if op=="sub" and isinstance(a,P) and isinstance(b,P):
                if a.r is not b.r: 
                    raise Unsupported(f"difference of pointers into {a.r} and {b.r}")
                t=simp(toZ(a.o)-toZ(b.o)) if not(isinstance(a.o,int) and isinstance(b.o,int)) else a.o-b.o
                c=conc(t); return I(w,c if c is not None else t,None,None)
            if op=="add":
                p,i=(a,b) if isinstance(a,P) else (b,a); return s.padd(p,s.idxval(st,i))
            raise Unsupported("pointer arithmetic "+op)
        if a is UNDEF or b is UNDEF: raise Unsupported("undef operand")
        if isinstance(a,V): return s.vbin(st,n,op,w,a,b)
        if isinstance(a,M) or isinstance(b,M): raise Unsupported("arithmetic on packed value")
        ca=a.t if isinstance(a.t,int) else None; cb=b.t if isinstance(b.t,int) else None
        if op in("add","sub","mul"):
            o={"add":"+","sub":"-","mul":"*"}[op]
            # operands unwrapped; keep nsw/nuw meaning by canonicalising where needed
            if n.nsw and s.overflow:
                x=I(w,s.wraps(st,a),a.lo,a.hi); y=I(w,s.wraps(st,b),b.lo,b.hi); h=1<<(w-1)
                if x.lo is None or x.hi is None or x.lo<-h or x.hi>=h: x=I(w,x.t,-h,h-1)
                if y.lo is None or y.hi is None or y.lo<-h or y.hi>=h: y=I(w,y.t,-h,h-1)
            else: x,y=a,b
            lo,hi=s.iv(o,x,y)
            if op=="add": t=x.t+y.t
            elif op=="sub": t=x.t-y.t
            else:
                if not isinstance(x.t,int) and not isinstance(y.t,int):
                    # product of two variables: canonicalise first to keep terms small
                    if not n.nsw:
                        sg=(x.lo is not None and x.lo<0) or (y.lo is not None and y.lo<0)
                        x=s.cu(st,x) if not sg else x; y=s.cu(st,y) if not sg else y
                        lo,hi=s.iv(o,x,y)
                t=s.mulhook(x.t,y.t) if s.mulhook and not(isc(x.t) or isc(y.t)) else x.t*y.t
            if not isinstance(t,int): t=z3.simplify(t)
            c=conc(t)
            if c is not None: t=c; lo=hi=c
            if n.nsw and s.overflow:
                h=1<<(w-1)
                if not (lo is not None and -h<=lo and hi<h): s.oblige(st,f"no signed overflow in {op}",AND(LE(-h,t),LT(t,h)),"overflow")
                if lo is None or lo<-h or hi>=h: lo,hi=-h,h-1
            if lo is not None and (abs(lo)>1<<(w+8) or abs(hi)>1<<(w+8)) and not n.nsw:
                v=I(w,t,lo,hi); return s.cu(st,v)
            return I(w,t,lo,hi)
        if op in("udiv","urem"):
            x=s.wrapu(st,a); y=s.wrapu(st,b)
            if s.strict_div or not isinstance(y,int): s.oblige(st,"divisor is not zero",NOT(EQ(y,0)),"div")
            if isinstance(x,int) and isinstance(y,int): return I(w,x//y if op=="udiv" else x%y)
            if op=="udiv":
                d=s.exact_div(x,y)
                if d is not None: return I(w,d,0,(1<<w)-1)
            if s.divhook and not isinstance(y,int) and op=="udiv":
                k=s.divhook(s,st,toZ(x),toZ(y))
                if k is not None: return I(w,k,0,(1<<w)-1)
            t=toZ(x)/toZ(y) if op=="udiv" else toZ(x)%toZ(y)
            if isinstance(y,int) and op=="urem": return I(w,t,0,y-1)
            if not isinstance(y,int) : s.div_facts(st,toZ(x),toZ(y))
            return I(w,t,0,(1<<w)-1)
        if op in("sdiv","srem"):
            x=s.wraps(st,a); y=s.wraps(st,b)
            s.oblige(st,"divisor is not zero",NOT(EQ(y,0)),"div")
            if isinstance(x,int) and isinstance(y,int):
                q=abs(x)//abs(y)*(1 if (x<0)==(y<0) else -1); return I(w,q if op=="sdiv" else x-q*y)
            h=1<<(w-1)
            if n.exact and op=="sdiv" and isinstance(y,int):
                d=s.exact_div(x,y)
                if d is not None: return I(w,d,None,None)
            X,Y=toZ(x),toZ(y)
            if isinstance(y,int) and y>0:
                if s.provable(st,X>=0,quant=False): q=X/Y
                else: q=z3.If(X>=0,X/Y,-((-X)/Y))
            elif s.provable(st,z3.And(X>=0,Y>0),quant=False): q=X/Y; s.div_facts(st,X,Y)
            else:
                q=z3.If(X>=0,z3.If(Y>0,X/Y,-(X/(-Y))),z3.If(Y>0,-((-X)/Y),(-X)/(-Y)))
            t=q if op=="sdiv" else X-q*Y
            return I(w,t,-h,h-1)
        if op=="shl":
            k=s.wrapu(st,b)
            if isinstance(k,int):
                if k>=w: s.oblige(st,"shift amount below width",False,"shift"); raise Dead()
                lo,hi=s.iv("*",a,I(w,1<<k))
                if lo is not None and (abs(lo)>1<<(w+8) or abs(hi)>1<<(w+8)): a=s.cu(st,a); lo,hi=s.iv("*",a,I(w,1<<k))
                t=a.t*(1<<k); r=I(w,simp(t) if not isinstance(t,int) else t,lo,hi)
                if hi is not None and abs(hi)>1<<(w+8): r=s.cu(st,r)
                return r
            s.oblige(st,"shift amount below width",AND(LE(0,k),LT(k,w)),"shift")
            s.pow2_facts(st,k,w)
            if isinstance(a.t,int) and a.t==1: return I(w,POW2(toZ(k)),1,1<<(w-1))
            if isinstance(a.t,int) and a.t==-1: return I(w,-POW2(toZ(k)),-(1<<(w-1)),-1)
            x=s.wrapu(st,a); t=toZ(x)*POW2(toZ(k)); return I(w,t,0,None)
        if op in("lshr","ashr"):
            k=s.wrapu(st,b); x=s.wrapu(st,a) if op=="lshr" else s.wraps(st,a)
            if isinstance(k,int):
                if k>=w: s.oblige(st,"shift amount below width",False,"shift"); raise Dead()
                if isinstance(x,int): return I(w,x>>k)
                if op=="lshr": return I(w,x/(1<<k) if k else x,0,(1<<(w-k))-1)
                return I(w,x/(1<<k) if k else x,-(1<<(w-1-k)),(1<<(w-1-k))-1)
            s.oblige(st,"shift amount below width",AND(LE(0,k),LT(k,w)),"shift"); s.pow2_facts(st,k,w)
            return I(w,toZ(x)/POW2(toZ(k)),0 if op=="lshr" else -(1<<(w-1)),(1<<w)-1 if op=="lshr" else (1<<(w-1))-1)
        if op in("and","or","xor"):
            x=s.wrapu(st,a); y=s.wrapu(st,b)
            if isinstance(x,int) and isinstance(y,int):
                return I(w,{"and":x&y,"or":x|y,"xor":x^y}[op])
            if isinstance(x,int): x,y=y,x; a,b=b,a
            full=(1<<w)-1
            if isinstance(y,int):
                if op=="and":
                    if y==0: return I(w,0)
                    if y==full: return I(w,x,0,full)
                    if (y&(y+1))==0: return I(w,x%(y+1),0,y)            # low mask
                    low=(y&-y)
                    if y+low==1<<w: return I(w,x-x%low,0,full)           # high mask
                    if ((y//low)&((y//low)+1))==0:                          # contiguous
                        return I(w,((x/low)%(y//low+1))*low,0,y)
                if op=="or" and y==0: return I(w,x,0,full)
                if op=="or" and (y&(y+1))==0 and y: 
                    return I(w,x-x%(y+1)+y,0,full)
                if op=="xor":
                    if y==0: return I(w,x,0,full)
                    if y==full: return I(w,full-x,0,full)
                    if (y&(y-1))==0: return I(w,z3.If((x/y)%2==0,x+y,x-y),0,full)
            # both sides boolean 0/1
            if s.in_range(st,I(w,x),0,1) and s.in_range(st,I(w,y),0,1):
                X=EQ(x,1); Y=EQ(y,1)
                return I(w,b2i(AND(X,Y) if op=="and" else OR(X,Y) if op=="or" else z3.Xor(toZ(X),toZ(Y))),0,1)
            if op in("or","xor"):        # two halves without common bits
                for k in (32,16,8):
                    if k>=w: continue
                    for lo_,hi_ in((x,y),(y,x)):
                        if s.provable(st,z3.And(toZ(lo_)<(1<<k),toZ(hi_)%(1<<k)==0),quant=False): return I(w,z3.simplify(toZ(lo_)+toZ(hi_)),0,full)
            raise Unsupported(f"integer-mode {op} on two variables")
        raise Unsupported("op "+op)
    def exact_div(s,x,y):
        """x / y as a term when x is syntactically a multiple of the constant y"""
        if not isinstance(y,int) or y==0: return None
        if isinstance(x,int): return x//y if x%y==0 else None
        x=z3.simplify(x,som=True); terms=x.children() if z3.is_add(x) else [x]; out=[]
        for t in terms:
            if z3.is_int_value(t):
                if t.as_long()%y: return None
                out.append(z3.IntVal(t.as_long()//y))
            elif z3.is_mul(t) and z3.is_int_value(t.arg(0)):
                k=t.arg(0).as_long()
                if k%y: return None
                ch=t.children()[1:]; r=ch[0] if len(ch)==1 else z3.Product(*ch); out.append(r*(k//y) if k//y!=1 else r)
            else: return None
        return z3.simplify(z3.Sum(*out) if len(out)>1 else out[0])
    def div_facts(s,st,x,y):
        """q=x div y, r=x mod y for variable y>0 (helps the nonlinear solver)"""
        q=x/y; r=x%y
        st.pc.append(z3.Implies(y>0,z3.And(x==q*y+r,r>=0,r<y)))
    def pow2_facts(s,st,k,w):
        k=toZ(k)
        key=("p2",k.get_id())
        if key in st.tags: return
        st.tags[key]=k
        # value table for the machine range: exact, finite
        t=z3.IntVal(1<<(w-1))
        for i in range(w-2,-1,-1): t=z3.If(k<=i,z3.IntVal(1<<i),t)
        st.pc.append(z3.Implies(z3.And(k>=0,k<w),POW2(k)==t))
    def vbin(s,st,n,op,w,a,b):
        x,y=a.t,b.t
        if op in("udiv","urem","sdiv","srem"): s.oblige(st,"divisor is not zero",y!=0,"div")
        if op in("shl","lshr","ashr"): s.oblige(st,"shift amount below width",z3.ULT(y,w),"shift")
        if n.nsw and s.overflow and op in("add","sub","mul"):
            ok={"add":lambda:z3.And(z3.BVAddNoOverflow(x,y,True),z3.BVAddNoUnderflow(x,y)),"sub":lambda:z3.And(z3.BVSubNoOverflow(x,y),z3.BVSubNoUnderflow(x,y,True)),
                "mul":lambda:z3.And(z3.BVMulNoOverflow(x,y,True),z3.BVMulNoUnderflow(x,y))}[op]()
            s.oblige(st,f"no signed overflow in {op}",ok,"overflow")
        f={"add":lambda:x+y,"sub":lambda:x-y,"mul":lambda:x*y,"udiv":lambda:z3.UDiv(x,y),"urem":lambda:z3.URem(x,y),"sdiv":lambda:x/y,"srem":lambda:z3.SRem(x,y),
           "shl":lambda:x<<y,"lshr":lambda:z3.LShR(x,y),"ashr":lambda:x>>y,"and":lambda:x&y,"or":lambda:x|y,"xor":lambda:x^y}[op]
        return V(w,z3.simplify(f()))
    def fbin(s,st,op,a,b):
        x,y=a.t,b.t
        if isinstance(x,Fraction) and isinstance(y,Fraction):
            if op=="fadd": return R(x+y)
            if op=="fsub": return R(x-y)
            if op=="fmul": return R(x*y)
            if op=="fdiv" and y!=0: return R(x/y)
        X,Y=toR(x),toR(y)
        if s.alg is not None and op in("fmul","fdiv"):
            r=s.alg.times(st,X,Y) if op=="fmul" else s.alg.over(st,X,Y)
            if r is not None:
                return R(r)
        if op=="fadd": return R(X+Y)
        if op=="fsub": return R(X-Y)
        if op=="fmul": return R(X*Y)
        if op=="fdiv":
            if s.fdivhook: s.fdivhook(s,st,X,Y,X/Y)
            return R(X/Y)
        raise Unsupported(op)
    def icmp(s,st,pred,a,b):
        if isinstance(a,FN) or isinstance(b,FN):
            if pred not in("eq","ne"): raise Unsupported("ordering of function pointers")
            if isinstance(a,FN) and isinstance(b,FN): eq=a.f is b.f
            else:
                o=b if isinstance(a,FN) else a
                if not((isinstance(o,P) and o.r is None) or (isinstance(o,I) and isinstance(o.t,int) and o.t==0)): raise Unsupported("comparison of a function pointer with a data pointer")
                eq=False
            return B(eq if pred=="eq" else not eq)
        if isinstance(a,P) or isinstance(b,P):
            if isinstance(a,I) and isinstance(a.t,int) and a.t==0: a=NULL
            if isinstance(b,I) and isinstance(b.t,int) and b.t==0: b=NULL
            if a.r is b.r:
                x,y=a.o,b.o
                if isinstance(x,int) and isinstance(y,int): d=None
                r={"eq":EQ(x,y),"ne":NOT(EQ(x,y)),"ult":LT(x,y),"ule":LE(x,y),"ugt":LT(y,x),"uge":LE(y,x),"slt":LT(x,y),"sle":LE(x,y),"sgt":LT(y,x),"sge":LE(y,x)}[pred]
                if not isinstance(r,bool):
                    # divide out common element size for readability/solver speed
                    r=z3.simplify(r); c=conc(r); r=c if c is not None else r
                return B(r)
            if pred=="eq": return B(False)
            if pred=="ne": return B(True)
            raise Unsupported("ordering of unrelated pointers")
        if isinstance(a,B) or isinstance(b,B):
            x=a.t if isinstance(a,B) else EQ(a.t,1); y=b.t if isinstance(b,B) else EQ(b.t,1)
            e=(x==y) if isinstance(x,bool) and isinstance(y,bool) else toZ(x)==toZ(y)
            if pred=="eq": return B(e)
            if pred=="ne": return B(NOT(e))
            raise Unsupported("i1 compare")
        if isinstance(a,V):
            x,y=a.t,b.t
            r={"eq":lambda:x==y,"ne":lambda:x!=y,"ult":lambda:z3.ULT(x,y),"ule":lambda:z3.ULE(x,y),"ugt":lambda:z3.UGT(x,y),"uge":lambda:z3.UGE(x,y),
               "slt":lambda:x<y,"sle":lambda:x<=y,"sgt":lambda:x>y,"sge":lambda:x>=y}[pred]()
            r=z3.simplify(r); c=conc(r); return B(c if c is not None else r)
        if isinstance(a,M) or isinstance(b,M) or a is UNDEF or b is UNDEF: raise Unsupported(f"compare {a} {b}")
        if pred in("eq","ne"):
            m=1<<a.w; h=m>>1
            def both(lo,hi): return all(v.lo is not None and lo<=v.lo and v.hi<=hi for v in(a,b))
            if both(0,m-1) or both(-h,h-1): e=EQ(a.t,b.t)
            elif isinstance(a.t,int) or isinstance(b.t,int):
                x=s.wrapu(st,a); y=s.wrapu(st,b); e=EQ(x,y)
            else:
                d=I(a.w,simp(a.t-b.t),*s.iv("-",a,b))
                if s.in_range(st,d,-(m-1),m-1): e=EQ(a.t,b.t)
                else: e=EQ(s.wrapu(st,a),s.wrapu(st,b))
            r=e if pred=="eq" else NOT(e)
        else:
            f=s.wrapu if pred[0]=="u" else s.wraps
            x=f(st,a); y=f(st,b)
            r={"lt":lambda:LT(x,y),"le":lambda:LE(x,y),"gt":lambda:LT(y,x),"ge":lambda:LE(y,x)}[pred[1:]]()
        if not isinstance(r,bool):
            r2=z3.simplify(r); c=conc(r2)
            if c is not None: r=c
        return B(r)
    def fcmp(s,st,pred,a,b):
        x,y=a.t,b.t
        if pred in("true",): return B(True)
        if pred in("false",): return B(False)
        if pred in("ord",): return B(True)
        if pred in("uno",): return B(False)
        p=pred[1:]
        if isinstance(x,Fraction) and isinstance(y,Fraction):
            return B({"eq":x==y,"ne":x!=y,"lt":x<y,"le":x<=y,"gt":x>y,"ge":x>=y}[p])
        X,Y=toR(x),toR(y)
        if s.alg is not None:
            r=s.alg.compare(st,p,X,Y)
            if r is not None: c=conc(z3.simplify(r)); return B(c if c is not None else r)
        r={"eq":lambda:X==Y,"ne":lambda:X!=Y,"lt":lambda:X<Y,"le":lambda:X<=Y,"gt":lambda:X>Y,"ge":lambda:X>=Y}[p]()
        c=conc(z3.simplify(r))
        return B(c if c is not None else r)
    def zext(s,st,v,w):
        if isinstance(v,B):
            if s.mode=="bv":
                return V(w,z3.simplify(z3.If(toZ(v.t),z3.BitVecVal(1,w),z3.BitVecVal(0,w))))
            return I(w,b2i(v.t),0,1)
        if isinstance(v,V): return V(w,z3.simplify(z3.ZeroExt(w-v.w,v.t)))
        if isinstance(v,I):
            c=s.cu(st,v); return I(w,c.t,c.lo,c.hi)
        raise Unsupported(f"zext {v}")
    def sext(s,st,v,w):
        if isinstance(v,V): return V(w,z3.simplify(z3.SignExt(w-v.w,v.t)))
        if isinstance(v,B): return I(w,ITE(v.t,-1,0),-1,0)
        h=1<<(v.w-1); t=s.wraps(st,v)
        lo,hi=(v.lo,v.hi) if (v.lo is not None and -h<=v.lo and v.hi<h) else (-h,h-1)
        return I(w,t,lo,hi)
    def trunc(s,st,v,w):
        if isinstance(v,B): return v
        if isinstance(v,V):
            x=z3.simplify(z3.Extract(w-1,0,v.t))
            if w==1: 
                r=z3.simplify(x==1); c=conc(r); return B(c if c is not None else r)
            return V(w,x)
        if isinstance(v,M):
            if len(v.v)==1 and v.v[0][1]*8==w: return v.v[0][2]
            if v.v and v.v[0][0]==0 and v.v[0][1]*8==w: return v.v[0][2]
            raise Unsupported("trunc of packed")
        if w==1:
            if isinstance(v.t,int): return B(bool(v.t&1))
            if v.lo is not None and v.lo>=0 and v.hi<=1: return B(s.as_bool(v.t))
            return B(EQ(v.t%2,1))
        return I(w,v.t,v.lo,v.hi)
    def as_bool(s,t):
        if isinstance(t,int): return bool(t)
        if z3.is_app_of(t,z3.Z3_OP_ITE) and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)) and t.arg(1).as_long()==1 and t.arg(2).as_long()==0: return t.arg(0)
        return t==1
    def fptoint(s,st,v,w,signed):
        x=v.t
        if isinstance(x,Fraction):
            q=abs(x.numerator)//x.denominator; return I(w,q if x>=0 else -q) if s.mode!="bv" else V(w,z3.BitVecVal(q if x>=0 else -q,w))
        X=toR(x)
        f=z3.simplify(z3.ToInt(X)) if True else None
        if s.provable(st,X>=0,quant=False): t=z3.ToInt(X); neg=False
        else: t=z3.If(X>=0,z3.ToInt(X),-z3.ToInt(-X)); neg=True
        lo,hi=(-(1<<(w-1)),(1<<(w-1))-1) if signed else (0,(1<<w)-1)
        # the conversion is undefined when the truncated value does not fit
        s.oblige(st,"float-to-integer conversion is representable",z3.And(t>=lo,t<=hi),"fptoint")
        if s.mode=="bv": raise Unsupported("fptoint in bv mode")
        return I(w,t,lo,hi)
    def inttofp(s,st,v,signed):
        if isinstance(v,B): return R(ITEr(v.t,Fraction(1),Fraction(0)))
        if isinstance(v,V):
            c=tryconc(v.t)
            if c is not None: return R(Fraction(c-(1<<v.w) if signed and c>=1<<(v.w-1) else c))
            t=z3.BV2Int(v.t,signed); return R(z3.ToReal(t))
        t=s.wraps(st,v) if signed else s.wrapu(st,v)
        return R(Fraction(t)) if isinstance(t,int) else R(z3.ToReal(t))
    def select(s,st,c,a,b):
        k=c.t if isinstance(c.t,bool) else tryconc(c.t)
        if not isinstance(k,bool): k=s.known(st,c.t)
        if isinstance(k,bool): return a if k else b
        if a is UNDEF: return b
        if b is UNDEF: return a
        if isinstance(a,I) and isinstance(b,I):
            lo=min(a.lo,b.lo) if a.lo is not None and b.lo is not None else None
            hi=max(a.hi,b.hi) if a.hi is not None and b.hi is not None else None
            if lo is None and not (a.lo is None and b.lo is None):
                pass
            return I(a.w,ITE(c.t,a.t,b.t),lo,hi)
        if isinstance(a,B) and isinstance(b,B): 
            if isinstance(a.t,bool) or isinstance(b.t,bool):
                return B(OR(AND(c.t,a.t),AND(NOT(c.t),b.t)))
            return B(z3.If(c.t,toZ(a.t),toZ(b.t)))
        if isinstance(a,R): return R(ITEr(c.t,a.t,b.t))
        if isinstance(a,V): return V(a.w,z3.simplify(z3.If(c.t,a.t,b.t)))
        if isinstance(a,P) and isinstance(b,P) and a.r is b.r and a.r is not None:
            return P(a.r,simp(ITE(c.t,a.o,b.o)))
        return a if s.decide(st,c.t) else b
    # ---- execution
    def run_fn(s,F,args,st):
        """-> list of (state, retval)"""
        s.mod.body(F); s.functions.add(F.dname)
        saved=st.env; st.env={}
        for (pid,ty),a in zip(F.params,args): st.env[pid]=a
        rets,exits,backs=s.run(F,[(0,None,st)],None)
        for st2,v in rets: st2.env=dict(saved)
        return rets
    def run(s,F,entries,loop):
        rets=[];exits=[];backs=[]; wl=list(entries)
        while wl:
            if s.merge: b,prev,st=s.pop_merged(F,wl,loop)
            else: b,prev,st=wl.pop()
            if prev!="preset":
                if loop and b==loop[0]: backs.append((prev,st)); continue
                if loop and b not in loop[1]: exits.append((b,prev,st)); continue
                if b in F.loops:
                    r2,ex2=s.do_loop(F,b,prev,st); rets+=r2; wl+=ex2; continue
                if F.blocks[b].phis: s.set_phis(F,b,prev,st)
            s.paths+=1
            if s.paths>s.maxpaths: raise Unsupported("too many paths")
            self_res=s.exec_block(F,b,st)
            for kind,x in self_res:
                if kind=="br": wl.append(x)
                elif kind=="ret": rets.append(x)
        return rets,exits,backs
    merge=False      # join the paths of branches that meet again (same memory layout), instead of going on separately
    def pop_merged(s,F,wl,loop):
        pos={x:i for i,x in enumerate(F.rpo)}; i=min(range(len(wl)),key=lambda i:-1 if wl[i][1]=="preset" else pos[wl[i][0]]); x=wl.pop(i); b,prev,st=x
        if prev=="preset" or b in F.loops or (loop and (b==loop[0] or b not in loop[1])): return x
        same=[y for y in wl if y[0]==b and y[1]!="preset"]
        if not same: return x
        for y in same: wl.remove(y)
        sts=[]
        for y in [x]+same: s.set_phis(F,b,y[1],y[2]); sts.append(y[2])
        done=[]
        while sts:      # innermost forks first: the longest common prefix of path facts
            a=sts.pop(0); best=None
            for i,c in enumerate(sts):
                m=s.try_merge(a,c,s.used_from(F,b))
                if m is not None: best=(i,m); break
            if best is None: done.append(a)
            else: sts.pop(best[0]); sts.insert(0,best[1])
        for d in done[1:]: wl.append((b,"preset",d))
        return (b,"preset",done[0])
    def used_from(s,F,b):
        """values used in block b or after it"""
        if not hasattr(F,"used"): F.used={}
        if b not in F.used:
            seen=set(); wl=[b]; u=set()
            while wl:
                x=wl.pop()
                if x in seen: continue
                seen.add(x); B_=F.blocks[x]; wl+=B_.succ
                for n in B_.phis+B_.insts: u|={o.id for o in n.ops if isinstance(o,Ref)}
            F.used[b]=u
        return F.used[b]
    def try_merge(s,a,c,needed):
        k=0
        while k<len(a.pc) and k<len(c.pc) and (a.pc[k] is c.pc[k] or (not isinstance(a.pc[k],bool) and not isinstance(c.pc[k],bool) and a.pc[k].eq(c.pc[k]))): k+=1
        if k>=len(a.pc) or k>=len(c.pc): return None
        p,q=a.pc[k],c.pc[k]
        if isinstance(p,bool) or isinstance(q,bool): return None
        if not(z3.simplify(z3.Not(p)).eq(q) or z3.simplify(z3.Not(q)).eq(p)): return None     # the two sides of one branch
        if a.tags!=c.tags or a.q!=c.q or set(a.ks)!=set(c.ks): return None
        n=State(); n.ks=dict(a.ks); n.tags=dict(a.tags); n.trace=a.trace[:-1]; n.q=list(a.q)
        def val(x,y):
            if x is y: return x
            if x is UNDEF or y is UNDEF: return None
            if type(x) is not type(y): return None
            if isinstance(x,P): return x if x.r is y.r and s.eqt(x.o,y.o) else (P(x.r,simp(ITE(p,x.o,y.o))) if x.r is y.r and x.r is not None else None)
            if isinstance(x,(I,B,R)):
                if s.eqt(x.t,y.t): return x
                return s.select(State(),B(p),x,y)      # not under either side's path facts
            if isinstance(x,FN): return x if x.f is y.f else None
            if isinstance(x,(A,M)): return x if repr(x)==repr(y) else None
            return None
        for i in a.env:
            if i in c.env:
                v=val(a.env[i],c.env[i])
                if v is not None: n.env[i]=v
                elif i in needed: return None
        for r in set(a.mem)|set(c.mem):
            if r not in a.mem or r not in c.mem: n.mem[r]=dict(a.mem[r] if r in a.mem else c.mem[r]); continue
            x,y=a.mem[r],c.mem[r]; d=n.mem[r]={}
            for f in x:
                if f in y:
                    if x[f] is y[f]: d[f]=x[f]
                    elif isinstance(x[f],z3.ExprRef): d[f]=x[f] if x[f].eq(y[f]) else z3.If(p,x[f],y[f])
                    elif not isinstance(x[f],(I,B,R,P,V,A,M,FN,U)):
                        if repr(x[f])!=repr(y[f]): return None
                        d[f]=x[f]
                    else:
                        v=val(x[f],y[f])
                        if v is None:
                            if x[f] is UNDEF or y[f] is UNDEF: d[f]=UNDEF; continue
                            return None
                        d[f]=v
        for g in a.g:
            if g in c.g:
                x,y=a.g[g],c.g[g]; n.g[g]=x if x is y or x.eq(y) else z3.If(p,x,y)
            elif s.g_drop is None or not s.g_drop(g): return None
        if any(g not in a.g and (s.g_drop is None or not s.g_drop(g)) for g in c.g): return None
        A_=[x for x in a.pc[k:] if x is not True]; C_=[x for x in c.pc[k:] if x is not True]
        n.pc=a.pc[:k]+([z3.Or(z3.And(*A_),z3.And(*C_))] if len(A_)>1 or len(C_)>1 else [])
        return n
    g_drop=None
    def eqt(s,x,y): return x is y or (isc(x) and isc(y) and type(x)==type(y) and x==y) or (isinstance(x,z3.ExprRef) and isinstance(y,z3.ExprRef) and x.eq(y))
    def set_phis(s,F,b,prev,st):
        vals={}
        for p in F.blocks[b].phis:
            for o,pb in zip(p.ops,p.blocks):
                if pb==prev: vals[p.id]=s.val(st,o); break
            else: raise Unsupported("phi without incoming")
        st.env.update(vals)
    def exec_block(s,F,b,st,start=0):
        """returns list of ('br',(blk,prev,state)) / ('ret',(state,val))"""
        B_=F.blocks[b]; out=[]; stack=[(start,st)]
        while stack:
            i,st=stack.pop()
            try:
                res=None
                while True:
                    n=B_.insts[i]; s.steps+=1
                    if s.steps>s.max_steps: raise Unsupported("step budget exhausted")
                    if n.line: s.curline=(n.file,n.line)
                    try:
                        r=s.step(F,b,n,st)
                    except Fork as f:
                        if len(B_.insts)<0: raise
                        for val_ in (True,False):
                            c=f.cond if val_ else z3.Not(f.cond)
                            c=z3.simplify(c)
                            if s.feasible(st,c):
                                s2=st.copy(); s2.pc.append(c); s2.trace=st.trace+((n.line,val_),); stack.append((i,s2))
                        r="forked"; break
                    if r is None: i+=1; continue
                    if r[0]=="states":   # call produced several states
                        for s2,v in r[1]:
                            if v is not None: s2.env[n.id]=v
                            if n.op=="invoke": out.append(("br",(n.blocks[0],b,s2)))
                            else: stack.append((i+1,s2))
                        break
                    out+=r[1]; break
            except Dead: continue
        return out
    def round32(s,st,n,v):
        """single precision results are rounded (double precision is treated as real): a monotone function, exact on integers below 2^24, relative error 2^-24"""
        if n.ty.kind!="float" or n.ty.name!="float" or not isinstance(v,R): return v
        if isinstance(v.t,Fraction):
            import struct
            try:
                if Fraction(struct.unpack("f",struct.pack("f",float(v.t)))[0])==v.t: return v
            except OverflowError: pass
        x=toR(v.t)
        if z3.is_app(x) and x.decl().name()=="round32": return v
        r=UF("round32",z3.RealSort(),z3.RealSort())(x); ax=z3.If(x>=0,x,-x)
        e=ax*z3.Q(1,1<<24)+z3.Q(1,1<<149); st.pc+=[r-x<=e,x-r<=e]
        return R(r)
    def step(s,F,b,n,st):
        op=n.op; e=st.env
        if op in("add","sub","mul","udiv","sdiv","urem","srem","shl","lshr","ashr","and","or","xor","fadd","fsub","fmul","fdiv"):
            e[n.id]=s.round32(st,n,s.binop(st,n,s.val(st,n.ops[0]),s.val(st,n.ops[1]))); return
        if op=="fneg":
            a=s.val(st,n.ops[0]); e[n.id]=R(-a.t if isinstance(a.t,Fraction) else -toR(a.t)); return
        if op=="frem": raise Unsupported("frem")
        if op=="icmp": e[n.id]=s.icmp(st,n.pred,s.val(st,n.ops[0]),s.val(st,n.ops[1])); return
        if op=="fcmp": e[n.id]=s.fcmp(st,n.pred,s.val(st,n.ops[0]),s.val(st,n.ops[1])); return
        if op=="zext": e[n.id]=s.zext(st,s.val(st,n.ops[0]),n.ty.w); return
        if op=="sext": e[n.id]=s.sext(st,s.val(st,n.ops[0]),n.ty.w); return
        if op=="trunc":
            e[n.id]=s.trunc(st,s.val(st,n.ops[0]),n.ty.w); return
        if op in("fptosi","fptoui"): e[n.id]=s.fptoint(st,s.val(st,n.ops[0]),n.ty.w,op=="fptosi"); return
        if op in("sitofp","uitofp"): e[n.id]=s.round32(st,n,s.inttofp(st,s.val(st,n.ops[0]),op=="sitofp")); return
        if op=="fptrunc": e[n.id]=s.round32(st,n,s.val(st,n.ops[0])); return
        if op in("fpext","freeze","bitcast","ptrtoint","inttoptr","addrspacecast"): e[n.id]=s.val(st,n.ops[0]); return
        if op=="select": e[n.id]=s.select(st,s.val(st,n.ops[0]),s.val(st,n.ops[1]),s.val(st,n.ops[2])); return
        if op=="alloca":
            r=Region(f"local{n.id}","obj"); s.locals_.add(r.id); st.mem[r.id]={}; s.add_subs(r,n.x,0); e[n.id]=P(r,0)
            if s.init_arrays:      # local arrays of 64-bit integers start with arbitrary content
                for base,sd,cnt in r.subs: st.mem[r.id][("A",base)]=(("int",sd*8),z3.Array(s.name(f"{r.name}.{base}"),IS(),IS()))
            return
        if op=="load":
            e[n.id]=s.load(st,s.val(st,n.ops[0]),n.ty,n); return
        if op=="store":
            o=n.ops[0]; v=s.val(st,o); p=s.val(st,n.ops[1])
            t=o.ty if isinstance(o,Const) else s.otype(F,o)
            s.store(st,p,v,t); return
        if op=="gep": e[n.id]=s.gep(st,s.val(st,n.ops[0]),n.x,[s.val(st,x) for x in n.ops[1:]]); return
        if op=="extractvalue":
            v=s.val(st,n.ops[0])
            for k in n.x: v=v.v[k]
            e[n.id]=v; return
        if op=="insertvalue":
            v=s.val(st,n.ops[0]); x=s.val(st,n.ops[1])
            def ins(v,path):
                if not path: return x
                c=list(v.v); c[path[0]]=ins(c[path[0]],path[1:]); return A(c)
            if v is UNDEF: raise Unsupported("insert into undef")
            e[n.id]=ins(v,n.x); return
        if op=="br":
            if len(n.blocks)==1: return ("out",[("br",(n.blocks[0],b,st))])
            c=s.val(st,n.ops[0])
            if isinstance(c,I): c=B(EQ(s.wrapu(st,c),1))
            if c is UNDEF: raise Unsupported("branch on undef")
            d=s.decide(st,c.t)
            return ("out",[("br",(n.blocks[0] if d else n.blocks[1],b,st))])
        if op=="switch":
            v=s.val(st,n.ops[0]); cases=[]
            for k in range(2,len(n.ops),2):
                cv=s.val(st,n.ops[k]); tgt=n.ops[k+1][1]
                if s.decide(st,s.icmp(st,"eq",v,cv).t): return ("out",[("br",(tgt,b,st))])
            return ("out",[("br",(n.ops[1][1],b,st))])
        if op=="ret":
            v=s.val(st,n.ops[0]) if n.ops else None
            return ("out",[("ret",(st,v))])
        if op in("call","invoke"): return s.call(F,b,n,st)
        if op=="unreachable": raise Dead()
        if op=="fence": return
        if op in("atomicrmw","cmpxchg"):
            if s.atomic: 
                r=s.atomic(s,st,n,[s.val(st,x) for x in n.ops]); e[n.id]=r; return
            raise Unsupported(op)
        if op in("landingpad","resume"): raise Dead()
        raise Unsupported("instruction "+op)
    def add_subs(s,r,t,off):
        if t.kind=="array" and t.n>16 and t.el.kind in("int","float"): r.subs.append((off,t.el.size,t.n))
        elif t.kind=="array" and t.n<=64:
            for i in range(t.n): s.add_subs(r,t.el,off+i*t.el.size)
        elif t.kind=="struct":
            for o,x in zip(t.offs,t.els): s.add_subs(r,x,off+o)
    def otype(s,F,o):
        if not hasattr(F,"types"):
            F.types={}
            for pid,t in F.params: F.types[pid]=t
            for B_ in F.blocks:
                for n in B_.phis+B_.insts: F.types[n.id]=n.ty
        return F.types[o.id]
    def call(s,F,b,n,st):
        args=[s.val(st,x) if not isinstance(x,tuple) and not (isinstance(x,Const) and x.k=="other") else None for x in n.args]
        fn=n.fn
        if fn is None:
            callee=s.val(st,n.x) if n.x is not None else None
            if isinstance(callee,FN): fn=callee.f
            else: raise Unsupported("indirect call")
        bn=s.bname(fn)
        r=s.intrinsic(st,n,fn.name,args)
        if r is NotImplemented:
            h=s.C.get(bn) or s.C.get(fn.name)
            if h is None: h=s.lib.get(bn) or s.lib.get(fn.name)
            if h is None:
                for pat,hh in s.lib.get("*",()):
                    if re.match(pat,bn): h=hh; break
            if h is None and not fn.decl:     # no contract: the body itself
                if s.depth>12: raise Unsupported(f"recursion without a contract: {bn}")
                s.depth+=1
                try: rs=s.run_fn(fn,args,st)
                finally: s.depth-=1
                return ("states",[(s2,v if v is not None else (UNDEF if n.ty.kind!="void" else None)) for s2,v in rs])
            if h is None: raise Unsupported(f"call to {bn}")
            s.used_contracts.add(bn)
            s.cur_inst=n
            r=h(s,st,args,n)
        if isinstance(r,list): return ("states",r)
        if r is not None and n.ty.kind!="void": st.env[n.id]=r
        if n.op=="invoke": return ("out",[("br",(n.blocks[0],b,st))])
        return None
    def bname(s,fn):
        if not hasattr(fn,"bn"): fn.bn=base_name(fn.dname)
        return fn.bn
    NOOP=re.compile(r"llvm\.(lifetime|dbg|prefetch|assume|invariant|experimental|stackrestore|stacksave|donothing)")
    def intrinsic(s,st,n,name,a):
        if not name.startswith("llvm."): return NotImplemented
        if s.NOOP.match(name): return UNDEF
        k=name.split(".")[1]
        if k in("memcpy","memmove"): s.memcpy(st,a[0],a[1],a[2]); return UNDEF
        if k=="memset":
            sz=tryconc(a[2].t)
            if sz is None: raise Unsupported("memset symbolic")
            p=a[0]
            if p.r is not None and p.r.kind=="obj":
                o=tryconc(p.o); 
                for (base,sd,cn) in p.r.subs:
                    if o<=base and base+sd*cn<=o+sz:
                        st.mem[p.r.id][("A",base)]=(("int",sd*8),z3.K(IS(),z3.IntVal(tryconc(a[1].t)))) ; s.note_write((p.r.id,("A",base)))
                        return UNDEF
                if tryconc(a[1].t)!=0: raise Unsupported("memset non-zero")
                mem=st.mem[p.r.id]
                # zero existing cells, remember others lazily
                s.clear(mem,o,sz)
                step=8 if sz%8==0 else 4 if sz%4==0 else 1
                for x in range(o,o+sz,step): 
                    mem[(x,step)]=I(step*8,0) if s.mode!="bv" else V(step*8,z3.BitVecVal(0,step*8)); s.note_write((p.r.id,(x,step)))
                return UNDEF
            raise Unsupported("memset on array")
        if k=="expect": return a[0]
        if k in("fabs",):
            x=a[0].t
            return R(abs(x)) if isinstance(x,Fraction) else R(z3.If(toR(x)>=0,toR(x),-toR(x)))
        if k=="is" and name.startswith("llvm.is.fpclass."):
            x=toR(a[0].t); m=tryconc(a[1].t); b=[bool(m>>i&1) for i in range(10)]
            if b[3]!=b[4] or b[5]!=b[6] or b[7]!=b[8]: raise Unsupported("class of a double")
            fin=z3.And(x>-INF,x<INF); parts=[x==-INF]*b[2]+[x==INF]*b[9]+[z3.And(fin,x<0)]*b[3]+[x==0]*b[5]+[z3.And(fin,x>0)]*b[7]
            return B(z3.simplify(z3.Or(*parts)) if parts else z3.BoolVal(False))
        if k in("minnum","maxnum"):
            x,y=toR(a[0].t),toR(a[1].t); return R(z3.If(x<=y,x,y) if k=="minnum" else z3.If(x>=y,x,y))
        if k in("floor","ceil","trunc"):
            x=a[0].t
            if isinstance(x,Fraction):
                import math; return R(Fraction({"floor":math.floor,"ceil":math.ceil,"trunc":math.trunc}[k](x)))
            X=toR(x)
            if k=="floor": return R(z3.ToReal(z3.ToInt(X)))
            if k=="ceil": return R(-z3.ToReal(z3.ToInt(-X)))
            return R(z3.If(X>=0,z3.ToReal(z3.ToInt(X)),-z3.ToReal(z3.ToInt(-X))))
        if k=="abs":
            v=a[0]
            if isinstance(v,V): return V(v.w,z3.simplify(z3.If(v.t<0,-v.t,v.t)))
            t=s.wraps(st,v)
            if isinstance(t,int): return I(v.w,abs(t))
            hi=max(abs(v.lo),abs(v.hi)) if v.lo is not None else (1<<(v.w-1))
            return I(v.w,z3.If(t>=0,t,-t),0,min(hi,1<<(v.w-1)))
        if k in("smin","smax","umin","umax"):
            c=s.icmp(st,("s" if k[0]=="s" else "u")+"lt",a[0],a[1])
            x,y=(a[0],a[1]) if k[1:]=="min" else (a[1],a[0])
            if isinstance(x,I):
                f=s.wraps if k[0]=="s" else s.wrapu
                x=I(x.w,f(st,x),x.lo,x.hi); y=I(y.w,f(st,y),y.lo,y.hi)
            return s.select(st,c,x,y)
        if k=="ctlz":
            v=a[0]
            if isinstance(v,V):
                w=v.w; t=z3.BitVecVal(w,w)
                for i in range(w): t=z3.If(z3.Extract(i,i,v.t)==1,z3.BitVecVal(w-1-i,w),t)
                return V(w,z3.simplify(t))
            x=s.wrapu(st,v)
            if isinstance(x,int): return I(v.w,v.w-x.bit_length())
            t=z3.IntVal(0)
            for i in range(v.w-1,-1,-1): t=z3.If(x<(1<<i),z3.IntVal(v.w-i),t)
            return I(v.w,t,0,v.w)
        if k=="cttz":
            v=a[0]
            if isinstance(v,V):
                w=v.w; t=z3.BitVecVal(w,w)
                for i in range(w-1,-1,-1): t=z3.If(z3.Extract(i,i,v.t)==1,z3.BitVecVal(i,w),t)
                return V(w,z3.simplify(t))
        if k=="x86":
            if name=="llvm.x86.bmi.pdep.32": return s.pdep(a[0],a[1])
            if name=="llvm.x86.bmi.pext.32": return s.pext(a[0],a[1])
        if name.startswith("llvm.umul.with.overflow."):
            x,y=s.wrapu(st,a[0]),s.wrapu(st,a[1]); w=a[0].w; t=simp(x*y); v=I(w,t,None,None) if not isinstance(t,int) else I(w,t)
            return A([I(w,s.wrapu(st,v)),B(NOT(LT(t,1<<w)))])
        if k in("umul","uadd","usub","smul","sadd","ssub"):
            raise Unsupported(name)
        if k=="sqrt": return R(rfun("sqrt",1)(toR(a[0].t)))
        if k=="fmuladd": return s.fbin(st,"fadd",s.fbin(st,"fmul",a[0],a[1]),a[2])
        if k in("minnum","maxnum"):
            X,Y=toR(a[0].t),toR(a[1].t); return R(z3.If(X<Y,X,Y) if k=="minnum" else z3.If(X<Y,Y,X))
        return NotImplemented
    def pdep(s,x,m):
        mk=tryconc(m.t)
        if mk is None: raise Unsupported("pdep with variable mask")
        bits=[]; k=0
        for i in range(32):
            if mk>>i&1: bits.append(z3.Extract(k,k,x.t)); k+=1
            else: bits.append(z3.BitVecVal(0,1))
        return V(32,z3.simplify(z3.Concat(*bits[::-1])))
    def pext(s,x,m):
        mk=tryconc(m.t)
        if mk is None: raise Unsupported("pext with variable mask")
        bits=[z3.Extract(i,i,x.t) for i in range(32) if mk>>i&1]
        bits+= [z3.BitVecVal(0,1)]*(32-len(bits))
        return V(32,z3.simplify(z3.Concat(*bits[::-1])))
    # ---- loops
    def nsw_step(s,F,phi,loop):
        if not hasattr(F,"defs"): F.defs={n.id:(n,B_.id) for B_ in F.blocks for n in B_.phis+B_.insts}
        for o,b in zip(phi.ops,phi.blocks):
            if b not in loop[1]: continue
            n=F.defs.get(o.id,(None,))[0] if isinstance(o,Ref) else None
            if n is None or n.op!="add" or not n.nsw or not(isinstance(n.ops[0],Ref) and n.ops[0].id==phi.id): return False
        return True
    def affine_delta(s,F,phi,h):
        """syntactic constant increment of a loop phi per iteration, or None"""
        body=F.loops[h]; defs={}
        if not hasattr(F,"defs"):
            F.defs={n.id:(n,B_.id) for B_ in F.blocks for n in B_.phis+B_.insts}
        def tr(o,seen):
            if isinstance(o,Ref):
                if o.id==phi.id: return 0
                if o.id in seen or o.id not in F.defs: return None
                n,bb=F.defs[o.id]
                if bb not in body: return None
                if n.op=="add" and isinstance(n.ops[1],Const) and n.ops[1].k=="int":
                    d=tr(n.ops[0],seen|{o.id})
                    if d is None: return None
                    c=n.ops[1].v; c=c-(1<<n.ty.w) if c>=1<<(n.ty.w-1) else c
                    return d+c
                if n.op=="sub" and isinstance(n.ops[1],Const) and n.ops[1].k=="int":
                    d=tr(n.ops[0],seen|{o.id})
                    if d is None: return None
                    c=n.ops[1].v; c=c-(1<<n.ty.w) if c>=1<<(n.ty.w-1) else c
                    return d-c
                if n.op=="gep" and all(isinstance(x,Const) and x.k=="int" for x in n.ops[1:]):
                    d=tr(n.ops[0],seen|{o.id})
                    if d is None: return None
                    t=n.x; w=n.ops[1].ty.w; c=n.ops[1].v; c=c-(1<<w) if c>=1<<(w-1) else c
                    off=c*t.size
                    for k in n.ops[2:]:
                        if t.kind=="struct": off+=t.offs[k.v]; t=t.els[k.v]
                        else: off+=(k.v-(1<<k.ty.w) if k.v>=1<<(k.ty.w-1) else k.v)*t.el.size; t=t.el
                    return d+off
                if n.op=="phi":
                    ds={tr(x,seen|{o.id}) for x in n.ops}
                    ds.discard("rec")
                    return ds.pop() if len(ds)==1 else None
            return None
        ds=set()
        for o,pb in zip(phi.ops,phi.blocks):
            if pb in body: ds.add(tr(o,frozenset()))
        return ds.pop() if len(ds)==1 else None
    def do_loop(s,F,h,prev,st):
        n=s.cut_const
        if n and n is not True:       # unroll n times; a loop that needs more is cut at its invariants from the start
            st_=st.copy(); mark=len(s.obls); mr=s.maxunroll; s.maxunroll=n
            try:
                if s.const_trips(F,h,prev,st)>n: raise LongLoop(F,h)
                return s.do_loop_(F,h,prev,st)
            except LongLoop as e:
                if e.F is not F or e.h!=h: raise
                del s.obls[mark:]; s.cut_const=True
                loop=(h,F.loops[h])
                try: s.set_phis(F,h,prev,st_)
                finally: pass
                try:
                    s.cut_const=n; return s.inv_loop(F,h,loop,st_)
                finally: s.cut_const=n
            finally: s.maxunroll=mr
        return s.do_loop_(F,h,prev,st)
    def const_trips(s,F,h,prev,st):
        """number of iterations of a loop that counts from a constant to a constant (0 if it is not such a loop)"""
        phis={p.id:p for p in F.blocks[h].phis}; t=st.copy(); s.dry+=1
        try:
            s.set_phis(F,h,prev,t)
            for n in F.blocks[h].insts:
                if n.op=="icmp" and isinstance(n.ops[0],Ref) and n.ops[0].id in phis:
                    x,y=s.val(t,n.ops[0]),s.val(t,n.ops[1]); d=s.affine_delta(F,phis[n.ops[0].id],h)
                    if d and isinstance(x,I) and isinstance(y,I) and isinstance(x.t,int) and isinstance(y.t,int): return abs(y.t-x.t)//abs(d)
                    if d and isinstance(x,P) and isinstance(y,P) and x.r is y.r:
                        k=conc(z3.simplify(toZ(y.o)-toZ(x.o),som=True)); 
                        if k is not None: return abs(k)//abs(d)
                if n.op=="br" or s.step(F,h,n,t) is not None: break
        except (Fork,Dead,Unsupported): pass
        finally: s.dry-=1
        return 0
    def do_loop_(s,F,h,prev,st):
        rets=[];outs=[]
        cur=[(prev,st)]; it=0
        loop=(h,F.loops[h])
        while cur:
            nxt=[]
            for prev,st in cur:
                s.set_phis(F,h,prev,st)
                mark=len(s.obls); st0=st.copy()
                r,ex,bk,decided=s.try_iter(F,h,loop,st)
                if decided:
                    rets+=r; outs+=ex; nxt+=bk; s.unrolled+=1
                else:
                    del s.obls[mark:]
                    r,ex=s.inv_loop(F,h,loop,st0); rets+=r; outs+=ex
            cur=nxt; it+=1
            if it>s.maxunroll:
                if s.cut_const and s.cut_const is not True: raise LongLoop(F,h)
                raise Unsupported("unroll limit")
        return rets,outs
    def try_iter(s,F,h,loop,st):
        """run one iteration if the header's exit test is decided by constants; returns (rets,exits,backs,decided)"""
        B_=F.blocks[h]; term=B_.insts[-1]
        exiting=[x for x in B_.succ if x not in loop[1]]
        if s.unroll_all:
            r,ex,bk=s.run(F,[(h,"preset",st)],loop); return r,ex,bk,True
        if s.cut_const is True: return None,None,None,False
        exiting=[x for x in exiting if F.blocks[x].insts[-1].op!="unreachable"]
        if exiting and term.op=="br" and len(term.blocks)==2:
            # execute header alone on a copy to look at its condition
            t=st.copy(); s.dry+=1
            try:
                dec=False
                try:
                    res=s.exec_block_peek(F,h,t)
                    dec=res is not None
                except (Fork,Dead): dec=False
            finally: s.dry-=1
            if not dec: return None,None,None,False
            r,ex,bk=s.run(F,[(h,"preset",st)],loop); return r,ex,bk,True
        # exit test elsewhere: decided if all paths agree
        s.dry+=1
        try:
            r,ex,bk=s.run(F,[(h,"preset",st.copy())],loop)
        finally: s.dry-=1
        if bk and (ex or r): return None,None,None,False
        r,ex,bk=s.run(F,[(h,"preset",st)],loop); return r,ex,bk,True
    def exec_block_peek(s,F,b,st):
        for n in F.blocks[b].insts:
            if n.op=="br":
                c=s.val(st,n.ops[0])
                k=c.t if isinstance(c.t,bool) else (tryconc(c.t) if not isinstance(c,I) else tryconc(c.t))
                return k if k is not None else None
            r=s.step(F,b,n,st)
            if r is not None: return None
        return None
    def havoc(s,st,mods,entry,K,deltas):
        for key in mods:
            if key[0]=="g":
                g=key[1]
                if g not in entry.g: st.g.pop(g,None); continue
                v=entry.g[g]
                if ("g",g) in deltas: st.g[g]=z3.simplify(toZ(v)+deltas[("g",g)]*K); continue
                srt=toZ(v).sort(); st.g[g]=z3.Const(s.name("g_"+(g if isinstance(g,str) else "_".join(map(str,g)))),srt); continue
            rid,fld=key
            m=st.mem.get(rid)
            if m is None: continue
            if isinstance(fld,tuple) and fld and fld[0]=="A":
                if fld in m:
                    k,arr=m[fld]; m[fld]=(k,z3.Const(s.name(f"h{rid}.{fld[1]}"),arr.sort()))
                continue
            if isinstance(fld,tuple):
                if key in deltas: m[fld]=s.add_const(entry.mem[rid][fld],deltas[key],K); continue
                v=m.get(fld)
                if v is None: continue
                m[fld]=s.fresh_like(st,v,f"h{rid}_{fld[0]}")
                continue
            v=m.get(fld)
            if isinstance(v,z3.ExprRef): m[fld]=z3.Const(s.name(f"h{rid}.{fld}"),v.sort())
    def add_const(s,v,d,K):
        if isinstance(v,P): return P(v.r,z3.simplify(toZ(v.o)+d*K,som=True))
        if isinstance(v,I): return I(v.w,z3.simplify(toZ(v.t)+d*K),None,None)
        raise Unsupported("affine")
    def delta_of(s,a,b):
        """constant b-a if syntactically constant"""
        if isinstance(a,P) and isinstance(b,P) and a.r is b.r:
            if a.r is None: return 0
            d=conc(z3.simplify(toZ(b.o)-toZ(a.o),som=True)); return d
        if isinstance(a,I) and isinstance(b,I):
            return conc(z3.simplify(toZ(b.t)-toZ(a.t)))
        return None
    def inv_loop(s,F,h,loop,entry):
        s.cut_loops+=1
        K=z3.Int(s.name("K")); phis=F.blocks[h].phis
        deltas={}
        for p in phis:
            v=entry.env[p.id]
            if isinstance(v,(I,P)):
                d=s.affine_delta(F,p,h)
                if d is not None and not(isinstance(v,P) and v.r is None): deltas[("phi",p.id)]=d
        # a counter whose only step is an addition that is obliged not to overflow stays in the signed range
        nsw={p.id for p in phis if s.overflow and ("phi",p.id) in deltas and isinstance(entry.env[p.id],I) and s.nsw_step(F,p,loop) and s.in_range(entry,entry.env[p.id],-(1<<(entry.env[p.id].w-1)),(1<<(entry.env[p.id].w-1))-1)}
        mods=set(); entry_line=s.curline
        def header(st):
            st.pc.append(K>=0)
            for p in phis:
                v=entry.env[p.id]; key=("phi",p.id)
                if key in deltas:
                    st.env[p.id]=s.add_const(v,deltas[key],K)
                    if p.id in nsw: t=toZ(st.env[p.id].t); h_=1<<(v.w-1); st.pc.append(z3.And(t>=-h_,t<h_))
                else: st.env[p.id]=s.fresh_like(st,v,f"phi{p.id}")
            s.havoc(st,mods,entry,K,deltas)
        # --- discover what the loop modifies
        outerw=s.writes
        bad=set()
        for rnd in range(12):
            s.writes=set(); st=entry.copy(); header(st); s.dry+=1
            gb=dict(st.g)
            s.discovering+=1
            try: r,ex,bk=s.run(F,[(h,"preset",st.copy())],loop)
            finally: s.dry-=1; s.discovering-=1
            w=s.writes; new=set()
            for key in w:
                if key in mods: continue
                if key[0]=="g" or (key[0] in entry.mem): new.add(key)
            # non-affine phis that are really affine
            chg=False
            for p in phis:
                key=("phi",p.id)
                if key in deltas or key in bad or not isinstance(entry.env[p.id],(I,P)): continue
                ds=set()
                for pb,s2 in bk:
                    nv=None
                    for o,b2 in zip(p.ops,p.blocks):
                        if b2==pb: nv=s.val(s2,o)
                    if isinstance(nv,P) and nv.r is entry.env[p.id].r and s.stays(F,s2,entry.env[p.id],nv,entry): chg=True
                    ds.add(s.delta_of(st.env[p.id],nv))
                if len(ds)==1 and None not in ds: deltas[key]=ds.pop(); chg=True
            for key in list(mods|new):
                if key in deltas or key in bad or not bk: continue
                if key[0]=="g": 
                    continue
                rid,fld=key
                if not(isinstance(fld,tuple) and isinstance(fld[0],int)): continue
                e0=entry.mem[rid].get(fld); h0=st.mem[rid].get(fld)
                if not isinstance(e0,(I,P)) or h0 is None: continue
                if key in new: continue   # decide only once it has been havocked
                for pb,s2 in bk:
                    nv=s2.mem[rid].get(fld)
                    if isinstance(nv,P) and isinstance(e0,P) and nv.r is e0.r and s.stays(F,s2,e0,nv,entry): chg=True
                ds=set(s.delta_of(h0,s2.mem[rid].get(fld)) for pb,s2 in bk)
                if len(ds)==1 and None not in ds: deltas[key]=ds.pop(); chg=True
                else: bad.add(key)
            if new: mods|=new; continue
            if chg: continue
            break
        else: raise Unsupported("loop modification analysis did not stabilise")
        s.writes=outerw
        if s.writes is not None: s.writes|=mods
        # affine cells must really be re-established: verified below as invariants by construction of delta
        outer=list(s.loop_stack)
        ctx={"F":F,"h":h,"line":s.header_line(F,h),"mods":mods}
        def view(st,k): return LoopView(s,F,h,st,k,entry,outer,ctx)
        cands=[]
        if s.discovering and s.fast_discovery: return r,ex      # only the written locations are wanted: no invariants needed
        if s.templates:
            for c in s.templates(view(entry,z3.IntVal(0))) or []: cands.append(c)
        if s.auto_cands:
            st=entry.copy(); header(st)
            cands+=s.auto(F,h,loop,st,K,entry,deltas)
        # --- initiation
        keep=[]
        for c in cands:
            nm,fn,req=c[0],c[1],(c[2] if len(c)>2 else False)
            try: g=fn(view(entry,z3.IntVal(0)))
            except (KeyError,Unsupported): continue
            if g is None: continue
            if g is True or s.provable(entry,toZ(g)): keep.append((nm,fn,req))
            else:
                s.houdini_log.append((F.dname,ctx["line"],nm,"not established on entry"))
                if req: s.oblige(entry,f"loop invariant '{nm}' holds on entry",g,"inv",assume=False)
        cands=keep
        s.loop_stack.append((F,h,K,entry))
        try:
            for rnd in range(30):
                st=entry.copy(); header(st); dead=False
                try:
                    for nm,fn,req in cands:
                        g=fn(view(st,K))
                        if g is not True:
                            (st.q if s.has_q(g) else st.pc).append(toZ(g))
                        if isinstance(fn,Schema): fn.know(view(st.copy(),K),st)
                except Dead: dead=True
                s.dry+=1
                try: r,ex,bk=([],[],[]) if dead else s.run(F,[(h,"preset",st.copy())],loop)
                finally: s.dry-=1
                ok=[]
                ends=[]
                for pb,s2 in bk:
                    t=s2.copy()
                    try: s.set_phis(F,h,pb,t)
                    except Unsupported: t=None
                    ends.append(t)
                for nm,fn,req in cands:
                    good=True
                    for t in ends:
                        if t is None: good=False; break
                        g=fn(view(t,K+1))
                        if g is not True and not s.provable(t,toZ(g),s.timeout):
                            if s.DBG and s.DBG[0].search(nm): s.DBG[1](s,t,toZ(g),nm)
                            good=False; break
                    if good: ok.append((nm,fn,req))
                    else: 
                        s.houdini_log.append((F.dname,ctx["line"],nm,"not preserved"))
                        if req and not s.dry: s.failed_inv=(nm,ctx["line"])
                # affine facts must be inductive too
                for key,d in list(deltas.items()):
                    if key[0]=="phi":
                        for pb,s2 in bk:
                            p=[q for q in phis if q.id==key[1]][0]; nv=None
                            for o,b2 in zip(p.ops,p.blocks):
                                if b2==pb: nv=s.val(s2,o)
                            if s.delta_of(st.env[p.id],nv)!=d: raise Unsupported(f"affine phi changed {p.id} {d} {st.env[p.id]} {nv}")
                    elif key[0]!="g":
                        for pb,s2 in bk:
                            if s.delta_of(st.mem[key[0]].get(key[1]),s2.mem[key[0]].get(key[1]))!=d: raise Unsupported("affine cell changed")
                for p in phis:
                    if ("phi",p.id) in deltas: continue
                    for pb,s2 in bk:
                        for o,b2 in zip(p.ops,p.blocks):
                            if b2==pb and s.stays(F,s2,entry.env[p.id],s.val(s2,o),entry): raise Unsupported("a pointer leaves the element boundaries")
                for key in mods:
                    if key[0]=="g" or key in deltas or not(isinstance(key[1],tuple) and isinstance(key[1][0],int)): continue
                    v=entry.mem.get(key[0],{}).get(key[1])
                    if v is None: continue
                    for pb,s2 in bk:
                        b2=s2.mem[key[0]].get(key[1])
                        if b2 is not None and s.stays(F,s2,v,b2,entry): raise Unsupported("a pointer leaves the element boundaries")
                if len(ok)==len(cands): break
                dropped=[c for c in cands if c not in ok]
                if any(c[2] for c in dropped) and not s.dry:
                    # a contract invariant is not preserved: name it
                    for nm,fn,req in dropped:
                        if not req: continue
                        for pb,s2 in bk:
                            t=s2.copy(); s.set_phis(F,h,pb,t); g=fn(view(t,K+1))
                            if g is not True and not s.provable(t,toZ(g),s.timeout):
                                s.curline=(None,ctx["line"]); s.oblige(t,f"loop invariant '{nm}' is preserved",g,"inv",assume=False)
                cands=ok
            else: raise Unsupported("invariant inference did not stabilise")
            if not s.dry: s.inv_obls+=len(cands)*(1+len(bk))
            st=entry.copy(); header(st)
            for nm,fn,req in cands:
                g=fn(view(st,K))
                if g is not True: (st.q if s.has_q(g) else st.pc).append(toZ(g))
                if isinstance(fn,Schema): fn.know(view(st.copy(),K),st)
            r,ex,bk=([],[],[]) if dead else s.run(F,[(h,"preset",st)],loop)
            if s.merge and any(s2.tags!=entry.tags for pb,s2 in bk): raise Unsupported("a loop changes what is tracked of objects")
        finally: s.loop_stack.pop()
        return r,ex
    def has_q(s,g):
        if isinstance(g,bool): return False
        todo=[g]; seen=set()
        while todo:
            x=todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): return True
            todo+=x.children()
        return False
    def header_line(s,F,h):
        for n in F.blocks[h].insts:
            if n.line: return n.line
        return 0
    def auto(s,F,h,loop,st,K,entry,deltas):
        """bound candidates from comparisons in the loop between a loop-variant affine value and an invariant one"""
        out=[]; seen=set()
        if not hasattr(F,"defs"): F.defs={n.id:(n,B_.id) for B_ in F.blocks for n in B_.phis+B_.insts}
        phis={p.id:p for p in F.blocks[h].phis}
        def affine_of(o):
            """(phi, const offset) if o = phi + const"""
            if not isinstance(o,Ref): return None
            if o.id in phis: return (o.id,0)
            d=F.defs.get(o.id)
            if d is None: return None
            n,bb=d
            if n.op in("add","sub") and isinstance(n.ops[1],Const) and n.ops[1].k=="int":
                r=affine_of(n.ops[0])
                if r:
                    c=n.ops[1].v; c=c-(1<<n.ty.w) if c>=1<<(n.ty.w-1) else c
                    return (r[0],r[1]+(c if n.op=="add" else -c))
            if n.op in("zext","sext"): return affine_of(n.ops[0])
            return None
        def reval(o,env_state):
            """evaluate an operand chain outside/inside loop in the header state if it does not depend on loop-variant things"""
            if isinstance(o,Const): return s.val(env_state,o)
            if isinstance(o,Ref):
                if o.id in phis: return None
                d=F.defs.get(o.id)
                if d is None or d[1] not in loop[1]: return env_state.env.get(o.id)
                n=d[0]
                if n.op in("add","sub","mul","shl","zext","sext","trunc","icmp","select","load","gep","sdiv","udiv","lshr"):
                    ops=[reval(x,env_state) for x in n.ops]
                    if any(x is None for x in ops): return None
                    try:
                        t=env_state.copy(); sd=s.dry; s.dry+=1
                        try:
                            if n.op in("add","sub","mul","shl","sdiv","udiv","lshr"): return s.binop(t,n,*ops)
                            if n.op=="zext": return s.zext(t,ops[0],n.ty.w)
                            if n.op=="sext": return s.sext(t,ops[0],n.ty.w)
                            if n.op=="trunc": return s.trunc(t,ops[0],n.ty.w)
                            if n.op=="load": 
                                v=s.load(t,ops[0],n.ty); return v
                            if n.op=="gep": return s.gep(t,ops[0],n.x,ops[1:])
                            if n.op=="select": return s.select(t,*ops)
                            if n.op=="icmp": return s.icmp(t,n.pred,*ops)
                        finally: s.dry=sd
                    except (Unsupported,Fork,Dead): return None
            return None
        for bb in loop[1]:
            for n in F.blocks[bb].insts:
                if n.op!="icmp": continue
                for x,y in((n.ops[0],n.ops[1]),(n.ops[1],n.ops[0])):
                    a=affine_of(x)
                    if a is None: continue
                    pid,off=a
                    bv=reval(y,st)
                    if bv is None or pid not in phis: continue
                    if isinstance(bv,I): bt0=bv
                    elif isinstance(bv,P): bt0=bv
                    else: continue
                    def mk(pid,bv,slack,ge):
                        def f(L):
                            v=L.st.env[pid]
                            if isinstance(v,P):
                                if not isinstance(bv,P) or v.r is not bv.r: return None
                                return toZ(v.o)<=toZ(bv.o) if not ge else toZ(v.o)>=toZ(bv.o)
                            if not isinstance(v,I) or not isinstance(bv,I): return None
                            return toZ(v.t)<=toZ(bv.t)+slack if not ge else toZ(v.t)>=toZ(bv.t)+slack
                        return f
                    for slack in ({0,1,-1} if isinstance(bv,I) else {0}):
                        key=(pid,str(bv),slack)
                        if key in seen: continue
                        seen.add(key)
                        out.append((f"auto v{pid}<=bound+{slack}",mk(pid,bv,slack,False)))
                        out.append((f"auto v{pid}>=bound+{slack}",mk(pid,bv,slack,True)))
        # lower/upper by entry value for affine phis is implied by K>=0
        return out
