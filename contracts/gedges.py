"""generateEdges of girgs and hypergirgs: every reported edge ends up in the returned list exactly once, whatever the thread and the flushes in between"""
from contracts._gsrc import *
def keep(n,d):
    b=sym.base_name(d)
    if "omp_outlined" in n: return True
    if re.match(r"(girgs|hypergirgs)::generateEdges$",b) and "{lambda" not in d: return True
    if re.match(r"girgs::make|girgs::SpatialTree::(generateEdges|SpatialTree|~SpatialTree)|hypergirgs::make|hypergirgs::HyperbolicTree::(generate|HyperbolicTree|~HyperbolicTree)$",b): return True
    if is_cb(d): return True
    if re.match(r"std::vector::(insert|emplace_back|push_back|clear|reserve|vector|~vector|resize|operator=|swap)$",b): return True
    return b.startswith("pthread_mutex")
def is_cb(d): return "generateEdges" in d and re.search(r"operator\(\)\(int, int, int\)",d) is not None
def i32():
    t=llvmc.Ty(); t.kind="int"; t.w=32; t.size=4; return t
def pty():
    t=llvmc.Ty(); t.kind="ptr"; t.w=64; t.size=8; return t
class Edges:
    """ghost: cnt/len of the returned list, cnt/len of every thread's own list; (eu,ev) an arbitrary pair of nodes"""
    def __init__(T,c,which):
        T.c=c; T.which=which; m=T.m=c.load(tu_g() if which=="g" else tu_h(),keep); T.q=("girgs" if which=="g" else "hypergirgs")+"::generateEdges"
        F=c.fn(m,T.q); E=T.E=Engine(m,name=T.q); st=State(); z=z3.IntVal(0); T.n=z3.Int("own_lists"); T.tmax=z3.Int("omp_threads"); T.eu,T.ev=z3.Ints("eu ev"); T.PS=UF("total_before",IS(),IS()); T.runs=0
        rt.omp(E,T.tmax); st.g.update(res=z,rlen=z,loc=z3.K(IS(),z),len=z3.K(IS(),z),locked=z,oth=z,gen=z,total=z,rep=z); st.tags["ver"]=0
        cb=[f for f in m.funcs.values() if not f.decl and is_cb(f.dname)]
        if len(cb)!=1: raise LookupError(f"{len(cb)} edge callbacks in generateEdges")
        T.cb=m.body(cb[0]); T.rowregs={}
        T.rdata=Region("returned edges","arr",8,{0:("int",32),4:("int",32)}); T.rdata.readonly=True; st.mem[T.rdata.id]={0:z3.Array("rd",IS(),IS()),4:z3.Array("rd4",IS(),IS()),"len":z3.Int("rdlen")}
        noop=lambda e,s,a,i:UNDEF
        E.C.update({"std::vector::vector":T.ctor,"std::vector::~vector":noop,"std::vector::reserve":noop,"std::vector::emplace_back":T.append,"std::vector::push_back":T.append,"std::vector::insert":T.insert,"std::vector::clear":T.clear,"std::vector::resize":T.resize,
            "pthread_mutex_lock":T.lock,"pthread_mutex_unlock":T.unlock,"__kmpc_critical":T.lock,"__kmpc_end_critical":T.unlock,"strlen":lambda e,s,a,i:I(64,1),"std::__ostream_insert":lambda e,s,a,i:a[0],"std::ostream::operator<<":lambda e,s,a,i:a[0],"std::ostream::_M_insert":lambda e,s,a,i:a[0],"std::endl":lambda e,s,a,i:a[0]})
        for ns,tr,g in(("girgs","SpatialTree","generateEdges"),("hypergirgs","HyperbolicTree","generate")):
            E.C[f"{ns}::make{tr}"]=T.tree; E.C[f"{ns}::{tr}::{tr}"]=T.tree; E.C[f"{ns}::{tr}::~{tr}"]=noop; E.C[f"{ns}::{tr}::{g}"]=T.generation
        E.templates=T.tpl; T.st=st; T.F=F; T.out=E.new_obj(st,"returned vector")
    def g(T,s,**kw):
        for k,v in kw.items(): s.g[k]=v if isinstance(v,z3.ExprRef) else z3.IntVal(v); T.E.note_write(("g",k))
    # ---- vectors
    def own(T,p): return isinstance(p,P) and p.r is not None and p.r is getattr(T,"lists",None)
    def isres(T,s,p): return isinstance(p,P) and p.r is not None and s.tags.get("res")==(p.r.id,conc(toZ(p.o)))
    def header(T,e,s,p):
        for off,v in((0,0),(8,z3.simplify(8*s.g["rlen"])),(16,z3.Int(e.name("cap")))): e.store(s,e.padd(p,off),P(T.rdata,v),pty())
    def makelists(T,e,s,p,n,d):
        if hasattr(T,"lists") and s.tags.get("lists"): raise Unsupported("two sets of edge lists")
        if "unsigned long [31]" in d: sd=24+8*31
        elif re.match(r"std::vector<std::vector<std::pair<int, int>",d): sd=24
        else: raise Unsupported("a vector of "+d.split("::vector(")[0][:80])
        e.oblige(s,"there is an edge list for every thread",n>=T.tmax,"post"); s.pc+=[T.n==n]; s.tags["lists"]=True
        def data(eng,st,i):
            i=z3.simplify(toZ(i)); k=(i.sexpr(),st.tags["ver"])
            if k not in T.rowregs:
                r=Region("edges of thread "+k[0][:20],"arr",8,{0:("int",32),4:("int",32)},"own",(i,st.tags["ver"])); r.readonly=True; T.rowregs[k]=r
            r=T.rowregs[k]
            if r.id not in st.mem:
                ln,cn=z3.Select(st.g["len"],i),z3.Select(st.g["loc"],i); r.cu=UF("matches_"+str(r.id),IS(),IS())
                st.mem[r.id]={0:z3.Array(f"eu{r.id}",IS(),IS()),4:z3.Array(f"ev{r.id}",IS(),IS()),"len":ln}; st.pc+=[ln>=0,r.cu(z3.IntVal(0))==0,r.cu(ln)==cn]
            if st.tags.get("par") is None and st.g["gen"] is not None: st.pc.append(T.PS(i+1)==T.PS(i)+z3.Select(st.g["loc"],i))
            return r
        T.lists=e.new_arr(s,"edge lists",sd,{0:("fn",lambda eng,st,i:P(data(eng,st,i),0)),8:("fn",lambda eng,st,i:P(data(eng,st,i),z3.simplify(8*z3.Select(st.g["len"],toZ(i))))),16:("fn",lambda eng,st,i:P(data(eng,st,i),z3.Int(eng.name("cap"))))},T.n)
        for off,v in((0,0),(8,z3.simplify(sd*T.n)),(16,z3.simplify(sd*T.n))): e.store(s,e.padd(p,off),P(T.lists,v),pty())
    def ctor(T,e,s,a,i):
        d=T.dn(i)
        if len(a)>=2 and isinstance(a[1],I): T.makelists(e,s,a[0],toZ(e.wraps(s,a[1])),d); return UNDEF
        if len(a)==2 and T.isres(s,a[1]):   # moved into the returned vector
            s.tags["res"]=(a[0].r.id,conc(toZ(a[0].o))); T.header(e,s,a[0]); return UNDEF
        if len(a)==1 and re.match(r"std::vector<std::pair<int, int>",d):
            if "res" in s.tags: raise Unsupported("another edge list")
            s.tags["res"]=(a[0].r.id,conc(toZ(a[0].o))); T.header(e,s,a[0]); return UNDEF
        if len(a)==1:
            for off in(0,8,16): e.store(s,e.padd(a[0],off),P(None,0),pty())
            return UNDEF
        raise Unsupported("vector constructor "+d[:80])
    def dn(T,i): return i.fn.dname
    def resize(T,e,s,a,i): T.makelists(e,s,a[0],toZ(e.wraps(s,a[1])),T.dn(i)); return UNDEF
    def idx(T,e,s,p):
        ix,f=e.split_off(s,T.lists,p.o,0); ix=toZ(ix); e.oblige(s,"the edge list used exists",z3.And(0<=ix,ix<T.n),"bounds")
        if conc(toZ(f))!=0: raise Unsupported("list at offset")
        if s.tags.get("par") is not None: e.oblige(s,"a thread only touches its own edge list",ix==s.tags["par"],"post")
        return ix
    def bump(T,e,s): s.tags["ver"]=("v",e.name("ver"))
    def append(T,e,s,a,i):
        src=a[1] if len(a)==2 and a[1].r is not None and a[1].r.fam=="own" else None
        if src is not None:      # a copy of a stored edge
            j,f=e.split_off(s,src.r,src.o,0); j=toZ(j); ix,ver=src.r.key; e.oblige(s,"an edge copied is in the list, as it is now",z3.And(j>=0,j<z3.Select(s.g["len"],ix)) if ver==s.tags["ver"] and f==0 else z3.BoolVal(False),"pre")
            x,y=z3.Int(e.name("x")),z3.Int(e.name("y")); s.pc+=[src.r.cu(j+1)==src.r.cu(j)+z3.If(z3.And(x==T.eu,y==T.ev),1,0)]; u,v=x,y
        elif len(a)==3: u,v=[toZ(e.wraps(s,e.load(s,p,i32()))) for p in a[1:]]
        elif len(a)==2: u,v=[toZ(e.wraps(s,e.load(s,e.padd(a[1],o),i32()))) for o in(0,4)]
        else: raise Unsupported("append")
        hit=z3.If(z3.And(u==T.eu,v==T.ev),z3.IntVal(1),z3.IntVal(0))
        if T.own(a[0]):
            ix=T.idx(e,s,a[0]); L,C=s.g["len"],s.g["loc"]; s.pc.append(z3.Select(L,ix)>=0); T.g(s,len=z3.Store(L,ix,z3.Select(L,ix)+1),loc=z3.Store(C,ix,z3.Select(C,ix)+hit)); T.bump(e,s)
        elif T.isres(s,a[0]): T.guard(e,s); T.g(s,res=s.g["res"]+hit,rlen=s.g["rlen"]+1); T.header(e,s,a[0])
        else: raise Unsupported("append to another list")
        return UNDEF
    def guard(T,e,s):
        if s.tags.get("par") is not None: e.oblige(s,"the returned list is only changed under the lock shared by all threads",s.g["locked"]==1,"post")
    def insert(T,e,s,a,i):
        if len(a)!=4 or not T.isres(s,a[0]): raise Unsupported("insert into another list")
        T.guard(e,s); _,pos,b,l=a
        e.oblige(s,"edges are inserted at a valid position of the returned list",z3.And(toZ(pos.o)>=0,toZ(pos.o)<=8*s.g["rlen"]) if pos.r is T.rdata and s.tags.get("at")==s.tags.get("pver") else z3.BoolVal(False),"pre")
        if b.r is None or b.r.fam!="own" or l.r is not b.r: raise Unsupported("insert of something else")
        ix,ver=b.r.key; L,C=s.g["len"],s.g["loc"]
        if s.tags.get("par") is not None: e.oblige(s,"a thread only touches its own edge list",ix==s.tags["par"],"post")
        e.oblige(s,"the whole list of a thread is inserted, as it is now",z3.And(toZ(b.o)==0,toZ(l.o)==8*z3.Select(L,ix)) if ver==s.tags["ver"] else z3.BoolVal(False),"pre")
        s.pc+=[T.PS(ix+1)==T.PS(ix)+z3.Select(C,ix),z3.Select(L,ix)>=0]; T.g(s,res=s.g["res"]+z3.Select(C,ix),rlen=s.g["rlen"]+z3.Select(L,ix)); T.header(e,s,a[0]); return P(T.rdata,pos.o)
    def clear(T,e,s,a,i):
        if not T.own(a[0]): raise Unsupported("clear of another list")
        ix=T.idx(e,s,a[0]); z=z3.IntVal(0); T.g(s,len=z3.Store(s.g["len"],ix,z),loc=z3.Store(s.g["loc"],ix,z)); T.bump(e,s); return UNDEF
    # ---- locks
    def lock(T,e,s,a,i):
        e.oblige(s,"the lock is not taken twice",s.g["locked"]==0,"pre")
        p=next((x for x in reversed(a) if isinstance(x,P) and x.r is not None),None)
        if s.tags.get("par") is not None:
            shared="critical" in i.fn.name or p is not None and (p.r.id in s.tags["old"] or p.r.kind!="obj") and not any("tid" in str(v) for v in ([p.o] if isinstance(p.o,z3.ExprRef) else []))
            e.oblige(s,"the lock is one that all threads share",z3.BoolVal(shared),"post")
            d,dl=z3.Int(e.name("others")),z3.Int(e.name("otherslen")); s.pc+=[d>=0,dl>=0]; T.g(s,locked=1,oth=s.g["oth"]+d,res=s.g["res"]+d,rlen=s.g["rlen"]+dl)
            r=next(r for r in [s.tags["resp"]]); T.header(e,s,r); s.tags["pver"]=s.tags["at"]=e.name("pos")
        else: T.g(s,locked=1)
        return I(32,0)
    def unlock(T,e,s,a,i): e.oblige(s,"only a lock that is held is released",s.g["locked"]==1,"pre"); T.g(s,locked=0); return I(32,0)
    # ---- the tree and the sampling run
    def tree(T,e,s,a,i):
        d=T.dn(i); ns=[x for x in a if isinstance(x,P) and x.r is not None]; ins=T.ins
        if T.which=="g":
            mm=re.search(r"SpatialTree<(\d+)u?",d)
            if not mm: raise Unsupported("dimension of the tree")
            D=int(mm.group(1)); e.oblige(s,f"the tree has the dimension of the positions",z3.Int("dim")==D,"pre")
            al=[x for x in a if isinstance(x,R)]; ps=[x for x in ns if x.r in(ins["weights"].r,ins["positions"].r)]
            e.oblige(s,"the tree is built for the weights, positions and alpha given",z3.And(z3.BoolVal([p.r for p in ps]==[ins["weights"].r,ins["positions"].r]),toR(al[0].t)==z3.Real("alpha")) if len(al)==1 else z3.BoolVal(False),"pre")
        else:
            re_=[x for x in a if isinstance(x,R)]; ps=[x for x in ns if x.r in(ins["radii"].r,ins["angles"].r)]
            e.oblige(s,"the tree is built for the radii, angles, T and R given",z3.And(z3.BoolVal([p.r for p in ps]==[ins["radii"].r,ins["angles"].r]),toR(re_[0].t)==z3.Real("T"),toR(re_[1].t)==z3.Real("R")) if len(re_)==2 else z3.BoolVal(False),"pre")
        k=[x for x in ns if x.r.kind=="obj" and x is not a[0] and x.r not in[p.r for p in ps]]
        if len(k)!=1: raise Unsupported("callback of the tree")
        s.tags[("tree",a[0].r.id)]=k[0]; return UNDEF
    def generation(T,e,s,a,i):
        cl=s.tags.get(("tree",a[0].r.id))
        if cl is None: raise Unsupported("a tree that was not built here")
        e.oblige(s,"the sampling seed is passed on",toZ(e.wraps(s,a[1]))==z3.Int("seed"),"pre"); e.oblige(s,"the sampler runs once",s.g["gen"]==0,"post"); e.oblige(s,"the lock is free while the sampler runs",s.g["locked"]==0,"pre"); z=z3.IntVal(0)
        k=z3.Int(e.name("k")); e.oblige(s,"nothing is in the lists before the first edge is reported",z3.And(s.g["res"]==0,z3.Select(s.g["loc"],k)==0),"pre")
        if "res" not in s.tags: raise Unsupported("no edge list to return")
        # rely/guarantee: any state the threads can be in, an arbitrary thread reports an arbitrary edge
        s2=s.copy(); T.havoc(e,s2); tid,u,v=z3.Ints("tid u v"); s2.pc+=[0<=tid,tid<T.tmax,u>=0,u<(1<<31),v>=0,v<(1<<31),z3.Select(s2.g["len"],tid)>=0]; s2.tags["par"]=tid; s2.tags["old"]=frozenset(s2.mem); rr=e.reg_names[s2.tags["res"][0]] if s2.tags["res"][0] in e.reg_names else T.out; s2.tags["resp"]=P(rr,s2.tags["res"][1]); T.header(e,s2,s2.tags["resp"])
        b=dict(s2.g); T.runs+=1; other=z3.Int("other"); env=s2.env
        for s3,_ in e.run_fn(T.cb,[P(cl.r,cl.o),I(32,u,0,(1<<31)-1),I(32,v,0,(1<<31)-1),I(32,tid,0,(1<<20)-1)],s2):
            T.c.cover(T.q,"a report",s3.pc)
            hit=z3.If(z3.And(u==T.eu,v==T.ev),1,0)
            e.oblige(s3,"a reported edge is in the returned list or its thread's own list exactly once more than before",s3.g["res"]-s3.g["oth"]+z3.Select(s3.g["loc"],tid)==b["res"]-b["oth"]+z3.Select(b["loc"],tid)+hit,assume=False)
            e.oblige(s3,"the lists of other threads stay as they are",z3.Implies(other!=tid,z3.And(z3.Select(s3.g["loc"],other)==z3.Select(b["loc"],other),z3.Select(s3.g["len"],other)==z3.Select(b["len"],other))),assume=False)
            e.oblige(s3,"the lock is released",s3.g["locked"]==0,assume=False)
            for kk,vv in s.mem.items():
                rg=e.reg_names.get(kk)
                if rg is not None and rg.kind=="obj" and not(rg is s2.tags["resp"].r) and rg.id in s2.tags["old"] and s3.mem.get(kk) is not None:
                    same=all(repr(s3.mem[kk].get(q))==repr(vv[q]) for q in vv)
                    e.oblige(s3,f"the callback leaves {rg.name} as it was",z3.BoolVal(same),"frame",assume=False)
        T.havoc(e,s); T.g(s,gen=1); s.pc+=[T.PS(z)==0]; T.g(s,rep=s.g["res"]+T.PS(T.n)); T.header(e,s,P(rr,s.tags["res"][1])); T.bump(e,s); return UNDEF
    def havoc(T,e,s):
        T.g(s,res=z3.Int(e.name("res")),rlen=z3.Int(e.name("rlen")),loc=z3.Array(e.name("loc"),IS(),IS()),len=z3.Array(e.name("len"),IS(),IS())); s.pc+=[s.g["res"]>=0,s.g["rlen"]>=0]; T.bump(e,s)
    def tpl(T,L):
        d=lambda M,k:M.st.g[k]-M.entry.g[k]
        def hd(M):
            r=M.st.tags.get("res"); p=M.st.mem.get(r[0],{}).get((r[1]+8,8)) if r else None
            return toZ(p.o)==8*M.st.g["rlen"] if isinstance(p,P) and p.r is T.rdata else z3.BoolVal(True)
        out=[]
        for p_,v in L.phis(P):
            if v.r is not None and v.r.fam=="own":
                # a loop over one list
                out.append(("copied so far: the edges before this one",lambda M,r=v.r:d(M,"res")==r.cu(M.K))); out.append(("within the list",lambda M,r=v.r:M.K<=z3.Select(M.st.g["len"],r.key[0])))
        return out+[("end of the returned list",hd),("returned so far: the lists before this one",lambda M:d(M,"res")==T.PS(M.K)),("nothing reported",lambda M:M.st.g["res"]==0),("lock free",lambda M:M.st.g["locked"]==0),("lock held",lambda M:M.st.g["locked"]==1),("at most one list per thread",lambda M:M.K<=T.n),("length",lambda M:M.st.g["rlen"]>=0)]
    def run(T):
        E,st=T.E,T.st; z=z3.IntVal(0); n=z3.Int("n"); dim=z3.Int("dim"); st.pc+=[n>=1,n<(1<<31),dim>=0,dim<(1<<31),z3.Int("seed")>=-(1<<31),z3.Int("seed")<(1<<31)]
        def vec(nm):
            d=E.new_arr(st,nm,8,{0:("real",64)},n); d.readonly=True; o=E.new_obj(st,"vector "+nm); o_=P(o,0)
            for off,v in((0,P(d,0)),(8,P(d,z3.simplify(8*n))),(16,P(d,z3.simplify(8*n)))): st.mem[o.id][(off,8)]=v
            return o_
        if T.which=="g":
            W=vec("weights"); pts=E.new_arr(st,"coordinates",8,{0:("real",64)},dim); pts.readonly=True
            rows=E.new_arr(st,"positions",24,{0:("fn",lambda e,s,i:P(pts,0)),8:("fn",lambda e,s,i:P(pts,z3.simplify(8*dim)))},n); rows.readonly=True; po=E.new_obj(st,"vector positions")
            for off,v in((0,P(rows,0)),(8,P(rows,z3.simplify(24*n)))): st.mem[po.id][(off,8)]=v
            T.ins=dict(weights=W,positions=P(po,0)); args=[P(T.out,0),W,P(po,0),R(z3.Real("alpha")),I(32,z3.Int("seed"),-(1<<31),(1<<31)-1)]
        else:
            Ra,An=vec("radii"),vec("angles"); T.ins=dict(radii=Ra,angles=An); args=[P(T.out,0),Ra,An,R(z3.Real("T")),R(z3.Real("R")),I(32,z3.Int("seed"),-(1<<31),(1<<31)-1)]
        out=E.run_fn(T.F,args,st); T.c.cover(T.q,"runs",[z3.BoolVal(bool(out) and T.runs>0)]); dims=set()
        for s,v in out:
            T.c.cover(T.q,"a path to the end",s.pc)
            should=z3.And(dim>=1,dim<=5) if T.which=="g" else z3.BoolVal(True)
            E.oblige(s,"the sampler runs exactly once"+(" for every dimension from 1 to 5" if T.which=="g" else ""),z3.Implies(should,s.g["gen"]==1),assume=False)
            E.oblige(s,"at return the list holds every reported edge exactly as often as it was reported",s.g["res"]==s.g["rep"],assume=False)
            E.oblige(s,"what is returned is that list",z3.BoolVal(s.tags.get("res")==(T.out.id,0)),assume=False)
        T.c.discharge(E,dict(threads=T.tmax,lists=T.n,dim=dim))
def edges(c,which): Edges(c,which).run()
