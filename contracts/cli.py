"""The command line tools (C21) and the files they write (C22): main() of gengirg and genhrg with all its own code inlined, and saveDot.
Strings are opaque terms (a literal, an argument, an entry of the parameter map, a concatenation); the parameter map is an array from keys to values;
an output file is an automaton over the characters, integers and doubles written to it."""
from contracts._gsrc import *
from vlib.prove import REPO
def tu(which): return f'#include "{REPO}/source/cli/{which}/main.cpp"\n'
KEEP=re.compile(r"std::(__cxx11::basic_string|map|basic_ofstream|basic_ostream|ostream|ofstream|basic_ios|ios_base|ios|__cxx11::sto.*|sto.|operator\+|operator==|operator!=|operator<<|endl|flush|fixed|scientific|hex|oct|setprecision|max_element|vector::(~?vector|operator=)$|__cxx11::to_string|to_string|chrono::_V2::|runtime_error|allocator|__new_allocator)")
def keep(n,d):
    b=sym.base_name(d)
    return n=="main" or re.match(r"(girgs|hypergirgs)::",b) is not None or (KEEP.match(b) is not None and b!="std::operator|")
S=z3.DeclareSort("Str"); MAPS=z3.ArraySort(S,S)
_lit={}
def lit(t):
    if t not in _lit: _lit[t]=z3.Const("lit:"+t,S)
    return _lit[t]
def littext(term): return term.decl().name()[4:] if z3.is_const(term) and term.decl().name().startswith("lit:") else None
EMPTY=lit("")
CONCAT=UF("concat",S,S,S); ARG=UF("arg",IS(),IS(),S); CHR=UF("argchar",IS(),IS(),IS()); SCAN=UF("parse_from",IS(),MAPS,MAPS); STOI=UF("stoi",S,IS()); STOD=UF("stod",S,RS()); NAN=UF("is_nan",S,z3.BoolSort()); STRCMP=UF("strcmp",S,S,IS()); LEN=UF("length",S,IS())
argc=z3.Int("argc"); NOARGS=z3.K(S,EMPTY); RES=SCAN(z3.IntVal(1),NOARGS)
def unfold(i,m):
    d=CHR(i,0)==ord('-')
    return [z3.Implies(i>=argc,SCAN(i,m)==m),z3.Implies(z3.And(i<argc,z3.Not(d)),SCAN(i,m)==SCAN(i+1,m)),z3.Implies(z3.And(i<argc,d),SCAN(i,m)==SCAN(i+2,z3.Store(m,ARG(i,1),z3.If(i+1<argc,ARG(i+1,0),EMPTY))))]
class CliEngine(Engine):
    """doubles read from the command line may be NaN: every ordered comparison with it is false"""
    def nan(s,t):
        if isc(t) or not isinstance(t,z3.ExprRef): return False
        if z3.is_app(t):
            n=t.decl().name()
            if n=="stod": return NAN(t.arg(0))
            if t.decl().kind()==z3.Z3_OP_ITE: return s.b3(t.arg(0),s.nan(t.arg(1)),s.nan(t.arg(2)))
            if t.decl().kind()==z3.Z3_OP_TO_REAL: return False
            return OR(*[s.nan(x) for x in t.children()])
        return False
    def b3(s,c,x,y):
        if x is False and y is False: return False
        return z3.If(c,toZ(x),toZ(y))
    def fcmp(s,st,pred,a,b):
        n=OR(s.nan(a.t),s.nan(b.t))
        if n is False or pred in("true","false"): return Engine.fcmp(s,st,pred,a,b)
        if pred=="ord": return B(NOT(n))
        if pred=="uno": return B(n)
        r=Engine.fcmp(s,st,pred,a,b).t
        return B(simp(AND(NOT(n),r) if pred[0]=="o" else OR(n,r)))
# ---- output files
class Sect:
    """a part of a file: `count` lines (None: once) of the items f(k); an item is a character, ('i',term), ('d',term) or ('rep',count,f(d)): doubles separated by commas"""
    def __init__(s,count,f): s.count=count; s.f=f
def chars(t): return list(t)
class Files:
    """ghost state of every open file: section, line, item in the line, element of a repeated item, comma pending"""
    KEYS=("sec","k","col","d","cm")
    def __init__(T,c,E,q): T.c=c; T.E=E; T.q=q; T.grammar={}; T.kinds={}
    def put(T,s,rid,**kw):
        for k,v in kw.items(): s.g[("fs",rid,k)]=v if isinstance(v,z3.ExprRef) else z3.IntVal(v); T.E.note_write(("g",("fs",rid,k)))
    def get(T,s,rid,k): return s.g[("fs",rid,k)]
    def isfile(T,p): return isinstance(p,P) and p.r is not None and p.r.id in T.kinds
    def open(T,s,p,kind,sections):
        if p.r.id in T.kinds and T.kinds[p.r.id]!=kind: raise Unsupported("two files in one stream object")
        T.kinds[p.r.id]=kind; T.grammar[p.r.id]=sections; rid=p.r.id; T.put(s,rid,sec=0,k=0,col=0,d=0,cm=0,prec=6,fmt=0); s.tags[("file",rid)]=kind; T.normal(s,rid)
    def resolve(T,s,rid,key,n):
        t=z3.simplify(T.get(s,rid,key)); k=conc(t)
        if k is not None: return k
        for v in range(n):
            if T.E.provable(s,t==v): return v
        raise Unsupported(f"position in the file {T.kinds[rid]} is not determined ({key})")
    def normal(T,s,rid):
        """a section written once that is complete: on to the next"""
        g=T.grammar[rid]
        while True:
            a=T.resolve(s,rid,"sec",len(g)+1)
            if a<len(g) and g[a].count is None and T.resolve(s,rid,"col",200)==len(g[a].f(z3.IntVal(0))): T.put(s,rid,sec=a+1,k=0,col=0)
            else: return
    def at(T,s,rid):
        """-> (section, k, items, column) for the next thing written; past the last line of a section: the next section"""
        g=T.grammar[rid]; a=T.resolve(s,rid,"sec",len(g)+1)
        while a<len(g):
            col=T.resolve(s,rid,"col",200); k=z3.simplify(T.get(s,rid,"k"))
            if g[a].count is None or col>0: return a,k,g[a].f(k),col
            if T.E.provable(s,k<g[a].count): return a,k,g[a].f(k),col
            if T.E.provable(s,k>=g[a].count):
                if not T.E.provable(s,k==g[a].count): break
                a+=1; T.put(s,rid,sec=a,k=0,col=0); continue
            raise Fork(z3.simplify(k<g[a].count))
        return a,None,None,None
    def emit(T,e,s,p,it,loc=None):
        """it: ('c',character) / ('i',int term) / ('d',real term)"""
        rid=p.r.id; nm=f"file: {T.kinds[rid]}: "
        if e.discovering:      # only what a loop changes is being asked for
            T.put(s,rid,**{k:z3.Int(e.name(k)) for k in T.KEYS}); return
        a,k,items,col=T.at(s,rid)
        if items is None: e.oblige(s,nm+"nothing follows the last line",z3.BoolVal(False)); raise Dead()
        x=items[col]
        if isinstance(x,tuple) and x[0]=="rep":
            d,cm=T.get(s,rid,"d"),T.get(s,rid,"cm"); cnt,f=x[1],x[2]
            if it[0]=="c" and it[1]==",": e.oblige(s,nm+"commas only separate coordinates",z3.And(d>0,d<cnt,cm==0)); T.put(s,rid,cm=1); return
            if it[0]=="d": e.oblige(s,nm+"the coordinates of a vertex are written in order, separated",z3.And(d<cnt,z3.Or(d==0,cm==1),it[1]==f(d))); T.put(s,rid,d=z3.simplify(d+1),cm=0); return
            if it[0]=="i": e.oblige(s,nm+"a number has its place",z3.BoolVal(False)); raise Dead()
            e.oblige(s,nm+"every coordinate of a vertex is written",z3.And(d==cnt,cm==0)); T.put(s,rid,col=col+1,d=0,cm=0); T.emit(e,s,p,it); return
        if it[0]=="c":
            if x!=it[1]: e.oblige(s,nm+f"text is written as the format has it ({it[1]!r} instead of {x!r})",z3.BoolVal(False)); raise Dead()
        elif isinstance(x,str) or x[0]!=it[0]: e.oblige(s,nm+f"a number has its place ({x!r} expected)",z3.BoolVal(False)); raise Dead()
        else:
            e.oblige(s,nm+x[2],it[1]==x[1])
            if len(x)>3: e.oblige(s,nm+"doubles have enough digits to be read back exactly",z3.And(T.get(s,rid,"prec")>=17,T.get(s,rid,"fmt")!=1))
        if col+1==len(items) and T.grammar[rid][a].count is not None: T.put(s,rid,k=z3.simplify(k+1),col=0)
        else: T.put(s,rid,col=col+1); T.normal(s,rid)
    def complete(T,s,rid):
        g=T.grammar[rid]; a,k,items,col=T.at(s,rid); return a==len(g)
    def known_open(T,e,s,p): e.oblige(s,f"file: {T.kinds[p.r.id]}: written only after it was opened",z3.Bool(f"opened{p.r.id}"))
    def close(T,e,s,rid):
        if ("done",rid) in s.tags or ("file",rid) not in s.tags: return
        s.tags[("done",rid)]=True
        e.oblige(s,f"file: {T.kinds[rid]}: a file that cannot be opened is reported",z3.Bool(f"opened{rid}")); e.oblige(s,f"file: {T.kinds[rid]}: every line is written",z3.BoolVal(bool(T.complete(s,rid))))
    def within(T,M,cnt): M.st.pc+=[cnt>=0,cnt<(1<<30)]; return M.K<=cnt       # a vector's size
    def tpl(T,L):
        out=[]
        for rid in T.kinds:
            if ("fs",rid,"k") not in L.st.g: continue
            for key in T.KEYS:
                out.append((f"{T.kinds[rid]}.{key} is still 0",lambda M,r=rid,q=key:T.get(M.st,r,q)==0))
                out.append((f"{T.kinds[rid]}.{key} as before the loop",lambda M,r=rid,q=key:T.get(M.st,r,q)==T.get(M.entry,r,q)))
                if key!="sec": out.append((f"{T.kinds[rid]}.{key} counts the iterations",lambda M,r=rid,q=key:T.get(M.st,r,q)==T.get(M.entry,r,q)+M.K))
            for key in("prec","fmt"): out.append((f"{T.kinds[rid]}.{key} as before the loop",lambda M,r=rid,q=key:T.get(M.st,r,q)==T.get(M.entry,r,q)))
            for (v,nm) in ((6,"6"),(17,"17")): out.append((f"{T.kinds[rid]}.prec is {nm}",lambda M,r=rid,v=v:T.get(M.st,r,"prec")==v))
            for j,sect in enumerate(T.grammar[rid]):
                if sect.count is not None:
                    for x in sect.f(z3.Int("k")):
                        if isinstance(x,tuple) and x[0]=="rep": out.append((f"{T.kinds[rid]}: no more coordinates than there are",lambda M,r=rid,f=sect.f:T.within(M,next(y for y in f(T.get(M.st,r,"k")) if isinstance(y,tuple) and y[0]=="rep")[1])))
                        if isinstance(x,tuple) and x[0]=="rep":
                            for g in L.ints()+[lambda S,i=p.id:S.env[i] for p,v in L.phis(B)]:     # a flag for the first coordinate
                                flag=lambda M,b,g=g:(lambda v:(v.t if b else z3.Not(v.t)) if isinstance(v,B) else toZ(v.t)==b)(g(M.st))
                                for cmp,nm in((lambda d:d==0,"none"),(lambda d:d>0,"some")): out.append((f"{T.kinds[rid]}: flag tells that {nm} of the coordinates is written",lambda M,r=rid,fl=flag,cmp=cmp:z3.And(fl(M,0)==z3.Not(cmp(T.get(M.st,r,"d"))),fl(M,1)==cmp(T.get(M.st,r,"d")))))
                if sect.count is not None: out.append((f"{T.kinds[rid]}: at most {j} all lines",lambda M,r=rid,t=sect.count:T.get(M.st,r,"k")<=t))
        return out
def strval(e,s,p):
    """the string a pointer (to a std::string or to characters) refers to"""
    if isinstance(p,I) and p.w==8 and conc(toZ(p.t)) is not None: return lit(chr(conc(toZ(p.t))&255))
    if not isinstance(p,P) or p.r is None: raise Unsupported("string at null")
    if p.r.fam=="entry": return z3.Select(s.g["map"],p.r.key)
    if p.r.fam=="argv": return ARG(p.r.key,toZ(p.o))
    k=("str",p.r.id,conc(toZ(p.o)))
    if k in s.g: return s.g[k]
    if p.r.name.startswith("@"): return lit(text(e,s,p))
    raise Unsupported(f"string content of {p.r}")
def text(e,s,p):
    o=conc(toZ(p.o))
    if not p.r.name.startswith("@") or o is None: raise Unsupported("text that is not a literal")
    init,const,t=e.mod.ginit(p.r.name[1:])
    if not const: raise Unsupported("text that is not constant")
    if init.k=="zero": return ""
    b=[x.v for x in init.v]; out=[]
    for x in b[o:]:
        if x==0: break
        out.append(chr(x))
    return "".join(out)
def setstr(e,s,p,term):
    if p.r.fam=="entry": s.g["map"]=z3.Store(s.g["map"],p.r.key,term); e.note_write(("g","map")); return
    k=("str",p.r.id,conc(toZ(p.o))); s.g[k]=term; e.note_write(("g",k))
def streams(T,E,files):
    """contracts of the stream operators; only output files are tracked"""
    def osig(i): m=re.search(r"ostream::operator<<\((.*)\)",i.fn.dname); return m.group(1) if m else ""
    def chain(e,s,p,items):
        for it in items:
            for x in ([("c",ch) for ch in it] if isinstance(it,str) else [it]): files.emit(e,s,p,x)
    def out_member(e,s,a,i):
        d=osig(i)
        if not files.isfile(a[0]): return a[0]
        if isinstance(a[1],FN):
            b=sym.base_name(a[1].f.dname); rid=a[0].r.id
            if b=="std::endl": files.known_open(e,s,a[0]); chain(e,s,a[0],["\n"])
            elif b=="std::flush": pass
            elif b in("std::fixed","std::scientific","std::defaultfloat"): files.put(s,rid,fmt={"std::fixed":1,"std::scientific":2,"std::defaultfloat":0}[b])
            else: e.oblige(s,"file: numbers are written in decimal",z3.BoolVal(False))
            return a[0]
        files.known_open(e,s,a[0]); v=a[1]
        if isinstance(v,I): chain(e,s,a[0],[("i",toZ(e.wrapu(s,v) if "unsigned" in d else e.wraps(s,v)))])
        elif isinstance(v,R): chain(e,s,a[0],[("d",toR(v.t))])
        else: raise Unsupported("output of "+d)
        return a[0]
    def out_free(e,s,a,i):
        if not files.isfile(a[0]): return a[0]
        v=a[1]
        if isinstance(v,P):
            t=strval(e,s,v) if "basic_string" in i.fn.dname.split("operator<<",1)[1].split("(",1)[1] and "char const*" not in i.fn.dname.rsplit("(",1)[1] else lit(text(e,s,v))
            tx=littext(z3.simplify(t))
            files.known_open(e,s,a[0])
            if tx is None: raise Unsupported("output of a string that is not a literal")
            chain(e,s,a[0],[tx]); return a[0]
        if isinstance(v,I) and v.w==8:
            k=conc(toZ(v.t))
            if k is None: raise Unsupported("output of a character that is not constant")
            files.known_open(e,s,a[0]); chain(e,s,a[0],[chr(k&255)]); return a[0]
        if "_Setprecision" in i.fn.dname:
            files.put(s,a[0].r.id,prec=toZ(e.wraps(s,v))); return a[0]
        raise Unsupported("output of "+i.fn.dname[:100])
    def mani(e,s,a,i): return a[0]
    def opened(e,s,a,i):
        if not files.isfile(a[0]): raise Unsupported("state of another stream")
        r=B(z3.Bool(f"opened{a[0].r.id}"));
        if i.fn.name and sym.base_name(i.fn.dname).rsplit("::",1)[1] in("fail","operator!","bad"): r=B(z3.Not(r.t))
        return r
    def fixed_like(kind):
        def h(e,s,a,i):
            if files.isfile(a[0]): files.put(s,a[0].r.id,fmt=kind)
            return a[0]
        return h
    def dtor(e,s,a,i):
        if files.isfile(a[0]): files.close(e,s,a[0].r.id)
        return UNDEF
    def precision(e,s,a,i):
        if files.isfile(a[0]) and len(a)==2: files.put(s,a[0].r.id,prec=toZ(e.wraps(s,a[1])))
        return I(64,z3.Int(e.name("prec")),0,100)
    E.C.update({"std::ostream::operator<<":out_member,"std::operator<<":out_free,"std::setprecision":lambda e,s,a,i:a[0],"std::basic_ofstream::is_open":opened,"std::ofstream::is_open":opened,"std::basic_ios::good":opened,"std::basic_ios::fail":opened,"std::basic_ios::operator!":opened,"std::basic_ios::operator bool":opened,
        "std::basic_ofstream::~basic_ofstream":dtor,"std::ofstream::~ofstream":dtor,"std::basic_ofstream::close":dtor,"std::ofstream::close":dtor,"std::fixed":fixed_like(1),"std::scientific":fixed_like(2),"std::flush":mani,"std::ostream::flush":mani,"std::ios_base::precision":precision,
        "std::endl":lambda e,s,a,i:(files.isfile(a[0]) and (files.known_open(e,s,a[0]),chain(e,s,a[0],["\n"])),a[0])[1]})
def strings(E):
    noop=lambda e,s,a,i:UNDEF
    def ctor(e,s,a,i):
        if len(a)==1: setstr(e,s,a[0],EMPTY)
        else: setstr(e,s,a[0],strval(e,s,a[1]))
        return UNDEF
    def assign(e,s,a,i): setstr(e,s,a[0],strval(e,s,a[1])); return a[0]
    def eq(neg):
        def h(e,s,a,i): t=strval(e,s,a[0])==strval(e,s,a[1]); return B(z3.Not(t) if neg else t)
        return h
    def compare(e,s,a,i):
        x,y=strval(e,s,a[0]),strval(e,s,a[1]); t=z3.If(x==y,0,z3.Int(e.name("cmp"))); s.pc+=[z3.Implies(x!=y,t!=0)]; return I(32,t,-(1<<31),(1<<31)-1)
    def plus(e,s,a,i): setstr(e,s,a[0],CONCAT(strval(e,s,a[1]),strval(e,s,a[2]))); return UNDEF
    def size(e,s,a,i):
        t=strval(e,s,a[0]); l=LEN(t); s.pc+=[l>=0,(l==0)==(t==EMPTY)]; return I(64,l,0,(1<<62))
    bs="std::__cxx11::basic_string::"
    E.C.update({bs+"basic_string":ctor,bs+"~basic_string":noop,bs+"operator=":assign,bs+"assign":assign,bs+"empty":lambda e,s,a,i:B(strval(e,s,a[0])==EMPTY),bs+"size":size,bs+"length":size,bs+"compare":compare,"std::operator==":eq(False),"std::operator!=":eq(True),"std::operator+":plus,
        bs+"c_str":lambda e,s,a,i:a[0],bs+"data":lambda e,s,a,i:a[0],"std::allocator::allocator":noop,"std::allocator::~allocator":noop,"std::__new_allocator::~__new_allocator":noop,"std::__new_allocator::__new_allocator":noop})
EDGES=lambda n,m,F1,F2:[Sect(None,lambda k:[("i",n,"the header is the number of vertices"),' ',("i",m,"then the number of edges"),'\n','\n']),Sect(m,lambda k:[("i",F1(k),"an edge's line is its first vertex"),' ',("i",F2(k),"then its second"),'\n'])]
COORD=lambda n,RA,AN:[Sect(n,lambda k:[("d",RA(k),"a vertex's line is its radius","exact"),' ',("d",AN(k),"then its angle","exact"),'\n'])]
DOT=lambda n,m,W,D,X,F1,F2:[Sect(None,lambda k:chars("graph girg {\n\toverlap=scale;\n\n")),Sect(n,lambda k:['\t',("i",k,"a node's line has its number")]+chars(' [label="')+[("d",W(k),"its label is its weight")]+chars('", pos="')+[("rep",D(k),lambda d,k=k:X(k,d))]+chars('"];\n')),
    Sect(None,lambda k:['\n']),Sect(m,lambda k:['\t',("i",F1(k),"an edge's line has its first vertex")]+chars("\t-- ")+[("i",F2(k),"and its second")]+chars(";\n")),Sect(None,lambda k:chars("}\n"))]
sgn=lambda x:z3.If(x>=(1<<31),x-(1<<32),x)      # memory holds the 32 bits of an int
def i32():
    t=llvmc.Ty(); t.kind="int"; t.w=32; t.size=4; return t
def pty():
    t=llvmc.Ty(); t.kind="ptr"; t.w=64; t.size=8; return t
class Tool:
    def __init__(T,c,which):
        T.c=c; T.which=which; m=T.m=c.load(tu(which),keep); T.q=which+" main"; F=m.funcs.get("main")
        if F is None: raise LookupError("no main")
        T.F=m.body(F); E=T.E=CliEngine(m,name=T.q); E.merge=True; E.fast_discovery=True; E.g_drop=lambda g:isinstance(g,tuple) and g[0]=="str"; st=T.st=State(); st.g["map"]=NOARGS; T.files=Files(c,E,T.q); streams(T,E,T.files); strings(E); T.entries={}
        T.maxthr=z3.Int("max_threads"); st.pc+=[argc>=0,argc<(1<<30),INF>z3.RealVal(10)**300,T.maxthr>=1,T.maxthr<(1<<20)]
        T.argregs={}
        def argv(eng,s,i):
            i=z3.simplify(toZ(i)); k=i.sexpr()
            if k not in T.argregs: T.argregs[k]=Region("argv["+k[:20]+"]","arr",1,{0:("fn",)},"argv",i); T.argregs[k].readonly=True; T.argregs[k].bounds=False
            r=T.argregs[k]
            if r.id not in s.mem: s.mem[r.id]={0:lambda eng,s,j,i=i:I(8,CHR(i,toZ(j)),-128,127),"len":z3.Int("strlen")}
            return P(r,0)
        T.argv=E.new_arr(st,"argv",8,{0:("fn",argv)},argc+1)
        # the values the documentation gives every parameter
        X=T.X=lambda nm:z3.Select(RES,lit(nm)); E.templates=T.tpl
        pi=lambda nm,d:z3.If(X(nm)==EMPTY,d,STOI(X(nm))); pd=lambda nm,d:z3.If(X(nm)==EMPTY,d,STOD(X(nm))); nan=lambda nm:z3.And(X(nm)!=EMPTY,NAN(X(nm)))
        flag=lambda nm:X(nm)==lit("1")
        rat=lambda a,b=1:z3.Q(a,b); V=T.V=dict(n=pi("n",10000),threads=pi("threads",1),file=z3.If(X("file")==EMPTY,lit("graph"),X("file")),edge=flag("edge"),deg=pd("deg",rat(10)))
        inr=lambda nm,v,lo,hi,lex=False,hex=False:z3.And(z3.Not(nan(nm)),v>lo if lex else v>=lo,v<hi if hex else v<=hi)
        if which=="gengirg":
            V.update(d=pi("d",1),ple=pd("ple",rat(5,2)),alpha=pd("alpha",INF),wseed=pi("wseed",12),pseed=pi("pseed",130),sseed=pi("sseed",1400),dot=flag("dot"))
            T.ranges={"d":z3.And(V["d"]>=1,V["d"]<=5),"ple":inr("ple",V["ple"],2,3,lex=True),"alpha":inr("alpha",V["alpha"],1,INF,lex=True)}
        else:
            V.update(alpha=pd("alpha",rat(3,4)),T=pd("t",rat(0)),rseed=pi("rseed",12),aseed=pi("aseed",130),sseed=pi("sseed",1400),nkr=flag("nkr"),coord=flag("coord"))
            T.ranges={"alpha":inr("alpha",V["alpha"],rat(1,2),1,lex=True),"t":inr("t",V["T"],0,1,hex=True)}
        T.ranges.update({"deg":inr("deg",V["deg"],1,z3.ToReal(V["n"])-1),"threads":z3.And(V["threads"]>=1,V["threads"]<=T.maxthr)})
        T.OK=z3.And(*T.ranges.values()); T.edgen=z3.Int("edges"); st.pc+=[T.edgen>=0,T.edgen<(1<<40)]
        for nm in("n","d","wseed","pseed","sseed","rseed","aseed","threads"): st.pc+=[STOI(X(nm))>=-(1<<31),STOI(X(nm))<(1<<31)]
        for nm in("deg","alpha","ple","t"): st.pc+=[STOD(X(nm))<=INF,STOD(X(nm))>=-INF]
        T.setup()
    def tpl(T,L):
        out=T.files.tpl(L)
        if ("g","map") in L.ctx.get("mods",()) and "map" in L.st.g:
            for p_,v in L.phis(I)+[]:
                def f(M,i=p_.id):
                    x,m=toZ(M.st.env[i].t),M.st.g["map"]; M.st.pc+=unfold(x,m)+unfold(x+1,m)[:1]
                    m2=z3.Store(m,ARG(x,1),z3.If(x+1<argc,ARG(x+1,0),EMPTY)); M.st.pc+=unfold(x+2,m2)[:1]+unfold(x+1,m2)[:1]; return z3.And(SCAN(x,m)==RES,x>=1)
                out.append((f"what is parsed so far, and the rest, is the result (phi{p_.id})",f))
        return out
    def inrange(T,e,s,why): 
        for nm,r in T.ranges.items(): e.oblige(s,f"param: {why} only with {nm} in the documented range",r)
    def same(T,e,s,what,v,nm,real=False):
        t=toR(v.t) if real else toZ(e.wraps(s,v)); e.oblige(s,f"param: {what} is the value of -{ {'T':'t'}.get(nm,nm)}",t==T.V[nm])
    def parallel(T,e,s,v): e.oblige(s,"param: drawing is parallel exactly with more than one thread",as_bool(e,s,v)==(T.V["threads"]>1))
    def vec(T,e,s,p,nm,stride,fields,n):
        k="vec_"+nm
        if k in s.tags: raise Unsupported("generated twice: "+nm)
        if not hasattr(T,k): 
            r=e.new_arr(s,nm,stride,fields,n); r.readonly=True; setattr(T,k,(r,dict(s.mem[r.id])))
        r,mem=getattr(T,k); s.mem[r.id]=dict(mem); s.tags[k]=(p.r.id,conc(toZ(p.o)))
        for off,v in((0,0),(8,z3.simplify(stride*n)),(16,z3.simplify(stride*n))): e.store(s,e.padd(p,off),P(r,v),pty())
        return r
    def isvec(T,e,s,p,nm): e.oblige(s,f"param: the {nm} are the ones generated",z3.BoolVal(isinstance(p,P) and p.r is not None and s.tags.get("vec_"+nm)==(p.r.id,conc(toZ(p.o)))))
    def setup(T):
        E=T.E; noop=lambda e,s,a,i:UNDEF; V=T.V; n=V["n"]
        def mapctor(e,s,a,i):
            if len(a)==1:
                if s.tags.get("map"): raise Unsupported("two parameter maps")
                s.tags["map"]=True; s.g["map"]=NOARGS; e.note_write(("g","map"))
            return UNDEF
        def entry(e,s,a,i):
            k=z3.simplify(strval(e,s,a[1])); key=k.sexpr()
            if key not in T.entries: T.entries[key]=Region("params["+key[:30]+"]","obj",fam="entry",key=k)
            r=T.entries[key]; s.mem.setdefault(r.id,{}); return P(r,0)
        def stoi(e,s,a,i):
            t=STOI(strval(e,s,a[0])); s.pc+=[t>=-(1<<31),t<(1<<31)]; return I(32,t,-(1<<31),(1<<31)-1)
        def stod(e,s,a,i): t=STOD(strval(e,s,a[0])); s.pc+=[t<=INF,t>=-INF]; return R(t)
        def ex(e,s,a,i):
            e.oblige(s,"param: the tool only gives up if a parameter is outside its documented range",z3.Not(T.OK)); e.oblige(s,"param: giving up is an error status",toZ(e.wraps(s,a[0]))%256!=0); T.gaveup=True; raise Dead()
        def thr(e,s,a,i): T.same(e,s,"the number of threads used",a[0],"threads"); return UNDEF
        def strcmp(e,s,a,i): return I(32,STRCMP(strval(e,s,a[0]),strval(e,s,a[1])),-255,255)
        def openf(e,s,a,i):
            if len(a)<2 or i.fn.dname.count("&&"): raise Unsupported("stream constructor")
            t=z3.simplify(strval(e,s,a[1])); T.inrange(e,s,"a file is opened"); ext=littext(t.arg(1)) if z3.is_app(t) and t.decl().name()=="concat" else None
            if ext not in(".txt",".hyp"): e.oblige(s,"file: the name ends in .txt or .hyp",z3.BoolVal(False)); raise Dead()
            kind={".txt":"edge list",".hyp":"coordinates"}[ext]; e.oblige(s,f"file: {kind}: the name is the value of -file",t.arg(0)==V["file"]); e.oblige(s,f"file: {kind}: written only when asked for",V["edge"] if ext==".txt" else V.get("coord",z3.BoolVal(False)))
            if ext==".txt":
                if "vec_edges" not in s.tags: e.oblige(s,"file: edge list: written after the edges are generated",z3.BoolVal(False)); raise Dead()
                ms=T.vec_edges[1]; g=EDGES(n,T.edgen,lambda k:sgn(z3.Select(ms[0],k)),lambda k:sgn(z3.Select(ms[4],k)))
            else:
                if "vec_radii" not in s.tags or "vec_angles" not in s.tags: e.oblige(s,"file: coordinates: written after they are generated",z3.BoolVal(False)); raise Dead()
                ra,an=T.vec_radii[1],T.vec_angles[1]; g=COORD(n,lambda k:z3.Select(ra[0],k),lambda k:z3.Select(an[0],k))
            T.files.open(s,a[0],kind,g); s.tags[("wrote",kind)]=s.tags.get(("wrote",kind),0)+1; return UNDEF
        def throw(e,s,a,i):
            fs=[k[1] for k in s.tags if k[0]=="file" and ("done",k[1]) not in s.tags]
            e.oblige(s,"file: an error is only reported for a file that could not be opened",z3.Or(*[z3.Not(z3.Bool(f"opened{r}")) for r in fs]) if fs else z3.BoolVal(False)); raise Dead()
        re_=("real",)
        def weights(e,s,a,i): T.inrange(e,s,"weights are generated"); T.same(e,s,"n",a[1],"n"); T.same(e,s,"ple",a[2],"ple",True); T.same(e,s,"the seed of the weights",a[3],"wseed"); T.parallel(e,s,a[4]); T.vec(e,s,a[0],"weights",8,{0:re_},n); return UNDEF
        def positions(e,s,a,i):
            T.inrange(e,s,"positions are generated"); T.same(e,s,"n",a[1],"n"); T.same(e,s,"the dimension",a[2],"d"); T.same(e,s,"the seed of the positions",a[3],"pseed"); T.vec(e,s,a[0],"positions",24,{},n); return UNDEF
        def scale(e,s,a,i): T.inrange(e,s,"weights are scaled"); T.isvec(e,s,a[0],"weights"); T.same(e,s,"the degree",a[1],"deg",True); T.same(e,s,"the dimension",a[2],"d"); T.same(e,s,"alpha",a[3],"alpha",True); e.oblige(s,"param: the weights are scaled once, before sampling",z3.BoolVal("scaled" not in s.tags and "vec_edges" not in s.tags)); s.tags["scaled"]=True; return R(z3.Real(e.name("scaling")))
        def edges_g(e,s,a,i): T.inrange(e,s,"edges are sampled"); T.isvec(e,s,a[1],"weights"); T.isvec(e,s,a[2],"positions"); T.same(e,s,"alpha",a[3],"alpha",True); T.same(e,s,"the sampling seed",a[4],"sseed"); e.oblige(s,"param: the weights are scaled once, before sampling",z3.BoolVal(s.tags.get("scaled") is True)); T.vec(e,s,a[0],"edges",8,{0:("int",32),4:("int",32)},T.edgen); return UNDEF
        def dot(e,s,a,i):
            T.inrange(e,s,"a file is written"); e.oblige(s,"file: dot: written only when asked for",V["dot"]); e.oblige(s,"file: dot: the name is the value of -file with .dot",strval(e,s,a[3])==CONCAT(V["file"],lit(".dot")))
            ok=all(s.tags.get("vec_"+nm)==(p.r.id,conc(toZ(p.o))) for p,nm in zip(a[:3],("weights","positions","edges"))); e.oblige(s,"file: dot: written for the generated weights, positions and edges",z3.BoolVal(ok)); s.tags[("wrote","dot")]=s.tags.get(("wrote","dot"),0)+1; return UNDEF
        RAD=[UF("radius"+x,IS(),RS(),RS(),RS(),RS()) for x in("","LikeNetworKit")]; args=(n,V["alpha"],V.get("T"),V["deg"])
        def radius(k):
            def h(e,s,a,i):
                T.inrange(e,s,"the radius is computed"); T.same(e,s,"n",a[0],"n"); T.same(e,s,"alpha",a[1],"alpha",True); T.same(e,s,"the temperature",a[2],"T",True); T.same(e,s,"the degree",a[3],"deg",True); return R(RAD[k](*args))
            return h
        isR=lambda e,s,v:e.oblige(s,"param: the radius is the one estimated as -nkr says",toR(v.t)==z3.If(V["nkr"],RAD[1](*args),RAD[0](*args)))
        def radii(e,s,a,i): T.inrange(e,s,"radii are generated"); T.same(e,s,"n",a[1],"n"); T.same(e,s,"alpha",a[2],"alpha",True); isR(e,s,a[3]); T.same(e,s,"the seed of the radii",a[4],"rseed"); T.parallel(e,s,a[5]); T.vec(e,s,a[0],"radii",8,{0:re_},n); return UNDEF
        def angles(e,s,a,i): T.inrange(e,s,"angles are generated"); T.same(e,s,"n",a[1],"n"); T.same(e,s,"the seed of the angles",a[2],"aseed"); T.parallel(e,s,a[3]); T.vec(e,s,a[0],"angles",8,{0:re_},n); return UNDEF
        def edges_h(e,s,a,i): T.inrange(e,s,"edges are sampled"); T.isvec(e,s,a[1],"radii"); T.isvec(e,s,a[2],"angles"); T.same(e,s,"the temperature",a[3],"T",True); isR(e,s,a[4]); T.same(e,s,"the sampling seed",a[5],"sseed"); T.vec(e,s,a[0],"edges",8,{0:("int",32),4:("int",32)},T.edgen); return UNDEF
        def name(e,s,a,i): setstr(e,s,a[0],lit("implementation")); return UNDEF
        E.lib["*"]=[(r"girgs::BitManipulationDetails::.*::name",name)]
        E.C.update({"std::map::map":mapctor,"std::map::~map":noop,"std::map::operator[]":entry,"std::__cxx11::stoi":stoi,"std::__cxx11::stod":stod,"std::stoi":stoi,"std::stod":stod,"exit":ex,"std::exit":ex,"_Exit":ex,"quick_exit":ex,"omp_get_max_threads":lambda e,s,a,i:I(32,T.maxthr,1,1<<20),"omp_set_num_threads":thr,"strcmp":strcmp,"std::basic_ofstream::basic_ofstream":openf,"__cxa_throw":throw,"__cxa_allocate_exception":lambda e,s,a,i:P(e.new_obj(s,"exception"),0),"__cxa_free_exception":noop,"std::runtime_error::runtime_error":noop,"std::runtime_error::~runtime_error":noop,
            "std::chrono::_V2::system_clock::now":lambda e,s,a,i:I(64,z3.Int(e.name("now")),0,1<<61),"std::vector::~vector":noop,"std::max_element":lambda e,s,a,i:a[0],"girgs::generateWeights":weights,"girgs::generatePositions":positions,"girgs::scaleWeights":scale,"girgs::generateEdges":edges_g,"girgs::saveDot":dot,
            "hypergirgs::calculateRadius":radius(0),"hypergirgs::calculateRadiusLikeNetworKit":radius(1),"hypergirgs::sampleRadii":radii,"hypergirgs::sampleAngles":angles,"hypergirgs::generateEdges":edges_h})
    def run(T):
        E=T.E; T.gaveup=False; out=E.run_fn(T.F,[I(32,argc,0,1<<30),P(T.argv,0)],T.st); V=T.V; A1=ARG(z3.IntVal(1),z3.IntVal(0)); T.c.cover(T.q,"return",[z3.BoolVal(bool(out))])
        HELP=z3.Or(argc<2,*[STRCMP(A1,lit(x))==0 for x in("--help","-help","--version")]); gen=0
        for s,v in out:
            T.c.cover(T.q,"a path to the end",s.pc); r=toZ(E.wraps(s,v))
            if "vec_edges" not in s.tags: E.oblige(s,"param: without an error the tool generates the graph, unless asked for help or its version",z3.Or(HELP,z3.And(r!=0,z3.Not(T.OK))),assume=False); continue
            gen+=1; E.oblige(s,"param: success is status 0, for values in range",z3.And(r==0,T.OK),assume=False)
            for kind,f in(("edge list",V["edge"]),)+((("dot",V["dot"]),) if T.which=="gengirg" else (("coordinates",V["coord"]),)):
                w=s.tags.get(("wrote",kind),0); E.oblige(s,f"file: {kind}: written once, if and only if asked for",f if w==1 else z3.Not(f) if w==0 else z3.BoolVal(False),assume=False)
            for k in list(s.tags):
                if k[0]=="file": T.files.close(E,s,k[1])
        T.c.cover(T.q,"a graph is generated",[z3.BoolVal(gen>0)])
        T.c.discharge(E,dict(n=V["n"],deg=V["deg"],threads=V["threads"],**{k:V[k] for k in("d","ple","alpha","T") if k in V}))
def tool(c,which,aspect=None):
    Engine.SKIP=None; Engine.ONLY={"param":re.compile("^(?!file:)"),"file":re.compile("^file:"),None:None}[aspect]; Tool(c,which).run()
def dotkeep(n,d): return sym.base_name(d)=="girgs::saveDot" or (KEEP.match(sym.base_name(d)) is not None and sym.base_name(d)!="std::operator|")
def saveDot(c):
    Engine.SKIP=Engine.ONLY=None
    m=c.load(tu_g(),dotkeep); q="girgs::saveDot"; F=c.fn(m,q); E=CliEngine(m,name=q); E.merge=True; E.fast_discovery=True; E.g_drop=lambda g:isinstance(g,tuple) and g[0]=="str"; st=State(); files=Files(c,E,q); streams(None,E,files); strings(E); st.g["map"]=NOARGS
    n,me=z3.Ints("n edges"); D=UF("dimension_of",IS(),IS()); X=UF("position",IS(),IS(),RS()); st.pc+=[n>=0,n<(1<<31)-1,me>=0,me<(1<<40)]; name=z3.Const("file_name",S)
    w=E.new_arr(st,"weights",8,{0:("real",)},n); ed=E.new_arr(st,"edges",8,{0:("int",32),4:("int",32)},me); rows={}
    def row(eng,s,i,end):
        i=z3.simplify(toZ(i)); k=i.sexpr()
        if k not in rows: rows[k]=Region("position "+k[:20],"arr",8,{0:("fn",)},"row",i); rows[k].readonly=True
        r=rows[k]
        if r.id not in s.mem: s.mem[r.id]={0:lambda eng,s,j,i=i:R(X(i,toZ(j))),"len":D(i)}
        s.pc+=[D(i)>=0,D(i)<(1<<30)]
        return P(r,z3.simplify(8*D(i)) if end else 0)
    ps=E.new_arr(st,"positions",24,{0:("fn",lambda e,s,i:row(e,s,i,False)),8:("fn",lambda e,s,i:row(e,s,i,True)),16:("fn",lambda e,s,i:row(e,s,i,True))},n)
    vec=lambda nm,r,sd,k:E.new_obj(st,nm,{(0,8):P(r,0),(8,8):P(r,z3.simplify(sd*k)),(16,8):P(r,z3.simplify(sd*k))})
    vw,vp,ve=vec("weights vector",w,8,n),vec("positions vector",ps,24,n),vec("edge vector",ed,8,me); fn=E.new_obj(st,"file name"); st.g[("str",fn.id,0)]=name
    for r in(w,ed,ps,vw,vp,ve,fn): r.readonly=True
    wm,em=dict(st.mem[w.id]),dict(st.mem[ed.id])
    def openf(e,s,a,i):
        if len(a)<2 or i.fn.dname.count("&&"): raise Unsupported("stream constructor")
        e.oblige(s,"file: dot: the file has the name given",strval(e,s,a[1])==name); e.oblige(s,"file: dot: one file is written",z3.BoolVal(not any(k[0]=="file" for k in s.tags)))
        files.open(s,a[0],"dot",DOT(n,me,lambda k:z3.Select(wm[0],k),D,X,lambda k:sgn(z3.Select(em[0],k)),lambda k:sgn(z3.Select(em[4],k)))); return UNDEF
    def throw(e,s,a,i):
        fs=[k[1] for k in s.tags if k[0]=="file" and ("done",k[1]) not in s.tags]
        e.oblige(s,"file: an error is only reported for a file that could not be opened",z3.Or(*[z3.Not(z3.Bool(f"opened{r}")) for r in fs]) if fs else z3.BoolVal(False)); raise Dead()
    noop=lambda e,s,a,i:UNDEF
    E.C.update({"std::basic_ofstream::basic_ofstream":openf,"__cxa_throw":throw,"__cxa_allocate_exception":lambda e,s,a,i:P(e.new_obj(s,"exception"),0),"__cxa_free_exception":noop,"std::runtime_error::runtime_error":noop})
    E.templates=lambda L:files.tpl(L)
    out=E.run_fn(F,[P(vw,0),P(vp,0),P(ve,0),P(fn,0)],st); c.cover(q,"return",[z3.BoolVal(bool(out))])
    for s,v in out:
        c.cover(q,"a path to the end",s.pc); fl=[k[1] for k in s.tags if k[0]=="file"]; E.oblige(s,"file: dot: a file is written",z3.BoolVal(len(fl)==1),assume=False)
        for r in fl: files.close(E,s,r)
    c.discharge(E,dict(vertices=n,edges=me))
