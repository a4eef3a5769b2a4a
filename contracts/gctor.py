"""SpatialTree: comparison level, insertion level, constructor (C06; used by C07, C09, C10, C13)"""
from contracts.gtree import *
from contracts.hctor import intvars,one,_p,_d,_i32
def rho(B,x,D,k): v=B-x-k; return z3.If(v>=0,v/D,0)      # floor((B-x-k)/D), at least 0
def levels_fn(c,D,which):
    """partitioningBaseLevel(i,j)=max(0,floor((B-i-j-2)/D)), weightLayerTargetLevel(i)=max(0,floor((B-i-1)/D)) with B=m_baseLevelConstant"""
    m=c.load(tu(D),keepfn); q=S+which; F=c.fn(m,q); E=Engine(m,name=q); st=State(); B_,i,j,lay=z3.Ints("B i j m_layers"); this=E.new_obj(st,"this"); this.readonly=True
    o=lambda k:const(m,"off_"+k); st.mem[this.id].update({(o("m_baseLevelConstant"),4):I(32,B_,-2000,2000),(o("m_layers"),4):I(32,lay,1,2000)}); st.pc+=[B_>=-2000,B_<=2000,lay>=1,lay<=2000,i>=0,i<lay,j>=0,j<lay]
    rt.libm(E); pb=which=="partitioningBaseLevel"
    out=E.run_fn(F,[P(this,0),I(32,i,0,2000)]+([I(32,j,0,2000)] if pb else []),st); c.cover(q,f"D={D}",[z3.BoolVal(bool(out))])
    for s,v in out:
        c.cover(q,"a path to the end",s.pc); r=toZ(E.wrapu(s,v))
        E.oblige(s,f"the level is max(0, floor((B-{'i-j-2' if pb else 'i-1'})/{D}))",r==(rho(B_,i+j,D,2) if pb else rho(B_,i,D,1)),assume=False)
    c.discharge(E,dict(B=B_,i=i,j=j,D=D))
def level_lemmas(c):
    i,j,B_,f=z3.Ints("i j B f"); L=z3.Real("L"); p=z3.Int("p"); h=[i>=0,j>=0]
    for D in range(1,6):
        P_=rho(B_,i+j,D,2)
        c.lemma("lemma",f"the comparison level does not exceed the insertion level of either layer (D={D})",h,z3.And(P_<=rho(B_,i,D,1),P_<=rho(B_,j,D,1)))
        c.lemma("lemma",f"the comparison level is that of a level that exists, and symmetric (D={D})",h,z3.And(P_>=0,P_<rho(B_,z3.IntVal(0),D,2)+1,P_==rho(B_,j+i,D,2)))
        c.lemma("lemma",f"truncating log2(W/w0^2) first does not change max(0,floor(x/D)) (D={D})",h+[z3.Implies(L>=0,z3.And(z3.ToReal(B_)<=L,L<z3.ToReal(B_)+1)),z3.Implies(L<0,z3.And(z3.ToReal(B_)>=L,z3.ToReal(B_)<L+1)),p==z3.ToInt((L-z3.ToReal(i)-z3.ToReal(j)-2)/D)],P_==z3.If(p>0,p,0))
        c.lemma("lemma",f"on a level above 0, 2^(D*level) is at most W/(w0^2*2^(i+1)*2^(j+1)) and 2^(D*(level+1)) is larger (exponents; D={D})",h+[P_>=1],z3.And(D*P_+i+j+2<=B_,D*(P_+1)+i+j+2>B_))
def ctor(c,D):
    m=c.load(tu(D),keepfn); q=S+"SpatialTree"; F=c.fn(m,q); E=Engine(m,name=q); st=State(); o={k:const(m,"off_"+k) for k in MEMBERS if k!="m_EdgeCallback"}
    n,iu,iv,f,kmin,kmax,lay=z3.Ints("n iu iv f kmin kmax layers"); alpha,W=z3.Reals("alpha W"); lg=rfun("log2",1)
    this=E.new_obj(st,"this"); wr=E.new_arr(st,"weights",8,{0:("real",)},n); wr.readonly=True; wm=st.mem[wr.id][0]; w=lambda k:z3.Select(wm,k)
    vw=E.new_obj(st,"weights vector",{(0,8):P(wr,0),(8,8):P(wr,8*n),(16,8):P(wr,8*n)}); vw.readonly=True; vp=E.new_obj(st,"positions vector"); vp.readonly=True; cb=E.new_obj(st,"callback"); w0,wn=w(kmin),w(kmax)
    x1,x2=W/w0/w0,wn/w0; st.pc+=[n>=1,n<(1<<31)-1,0<=f,f<n,0<=kmin,kmin<n,0<=kmax,kmax<n,w0>0,w0<=w(f),w(f)<=wn,w0<=wn,W>0,lg(x2)>=0,lg(x2)<1100,lg(x1)<=2000,lg(x1)>=-2000,0<=iu,0<=iv]
    wl=E.new_arr(st,"m_weight_layers",const(m,"size_layer"),{},lay); pairs=E.new_arr(st,"m_layer_pairs",24,{},z3.Int("npairs")); st.g["cnt"]=z3.IntVal(0); noop=lambda e,s,a,i:UNDEF; tg={}
    def rng(e,s,a):
        b,e_=a[0],a[1]; e.oblige(s,"minimum, maximum and sum are taken over all weights",z3.And(z3.BoolVal(b.r is wr and e_.r is wr),toZ(b.o)==0,toZ(e_.o)==8*n) if isinstance(b,P) and isinstance(e_,P) else z3.BoolVal(False),"pre")
    def mn(e,s,a,i): rng(e,s,a); return P(wr,8*kmin)
    def mx(e,s,a,i): rng(e,s,a); return P(wr,8*kmax)
    def acc(e,s,a,i): rng(e,s,a); e.oblige(s,"the sum of the weights starts at 0",toR(a[2].t)==0,"pre"); return R(W)
    def mm(e,s,a,i):
        rng(e,s,a); return UNDEF
    def B_of(e,s): return toZ(e.wraps(s,e.load(s,P(this,o["m_baseLevelConstant"]),_i32())))
    def pbl(e,s,a,i):
        x,y=[toZ(e.wraps(s,v)) for v in a[1:3]]; b=B_of(e,s); 
        v=UF("PBL",IS(),IS(),IS())(x,y); v0=UF("PBL",IS(),IS(),IS())(z3.IntVal(0),z3.IntVal(0)); s.pc+=[v==rho(b,x+y,D,2),v0==rho(b,z3.IntVal(0),D,2),v>=0,v<=2000]; return I(32,v,0,2000)
    def resize(e,s,a,i):
        k=toZ(e.wrapu(s,a[1])); of=conc(toZ(a[0].o)) if a[0].r is this else None
        if of!=o["m_layer_pairs"]: raise Unsupported("resize of another vector")
        b=B_of(e,s); e.oblige(s,"there is a list of layer pairs for every level",k==rho(b,z3.IntVal(0),D,2)+1,"pre")
        for d,v in((0,P(pairs,0)),(8,P(pairs,z3.simplify(24*k))),(16,P(pairs,z3.simplify(24*k)))): e.store(s,e.padd(a[0],d),v,_p())
        s.g["npairs"]=k; return UNDEF
    def vec(e,s,a,i):
        if a[0].r is not this: 
            if len(a)==1: return UNDEF
            raise Unsupported("vector constructor")
        if len(a)>=2 and isinstance(a[1],I): return resize(e,s,a,i)
        for d in(0,8,16): e.store(s,e.padd(a[0],d),P(None,0),_p())
        return UNDEF
    def emplace(e,s,a,i):
        if a[0].r is not pairs: raise Unsupported("emplace_back to another vector")
        k,fo=e.split_off(s,pairs,a[0].o,0); k=toZ(k); x,y=[toZ(e.wrapu(s,e.load(s,p,_i32()))) for p in a[1:3]] if len(a)>=3 else [toZ(e.wrapu(s,e.load(s,e.padd(a[1],d),_i32()))) for d in(0,4)]
        b=B_of(e,s); e.oblige(s,"layer pairs are stored on a level that exists",z3.And(0<=k,k<rho(b,z3.IntVal(0),D,2)+1),"bounds"); e.oblige(s,"a layer pair is stored on its comparison level",z3.And(0<=x,0<=y,k==rho(b,x+y,D,2)),"post")
        s.g["cnt"]=z3.simplify(s.g["cnt"]+one(z3.And(x==iu,y==iv))); e.note_write(("g","cnt")); return UNDEF
    def bp(e,s,a,i):
        e.oblige(s,"the partition is built from the given weights and positions",z3.BoolVal(a[2].r is vw and a[3].r is vp and a[1].r is this),"pre"); s.tags["built"]=True
        return UNDEF
    def assign(e,s,a,i): return a[0]
    rt.libm(E)
    E.C.update({"std::min_element":mn,"std::max_element":mx,"std::accumulate":acc,"std::vector::vector":vec,"std::vector::~vector":noop,"std::vector::resize":resize,"std::vector::emplace_back":emplace,"std::vector::push_back":emplace,"std::vector::operator=":assign,
        S+"buildPartition":bp,S+"partitioningBaseLevel":pbl,"ScopedTimer::ScopedTimer":noop,"ScopedTimer::~ScopedTimer":noop,"std::__cxx11::basic_string::basic_string":noop,"std::__cxx11::basic_string::~basic_string":noop})
    def tpl(L):
        iv_=intvars(L); out=[]; M_=lambda M:toZ(E.wrapu(M.st,M.st.mem[this.id][(o["m_layers"],4)]))
        for nx,X in iv_:
            out.append((f"{nx} in range",lambda M,X=X:z3.And(X(M)>=0,X(M)<=M_(M))))
            out.append((f"after rows below {nx}",lambda M,X=X:M.st.g["cnt"]==z3.If(z3.And(iu<X(M),iv<M_(M)),1,0)))
            for ny,Y in iv_:
                if nx==ny: continue
                out.append((f"after rows below {nx}, columns below {ny}",lambda M,X=X,Y=Y:M.st.g["cnt"]==z3.If(z3.And(iv<M_(M),z3.Or(iu<X(M),z3.And(iu==X(M),iv<Y(M)))),1,0)))
                out.append((f"after columns below {nx}, rows below {ny}",lambda M,X=X,Y=Y:M.st.g["cnt"]==z3.If(z3.And(iu<M_(M),z3.Or(iv<X(M),z3.And(iv==X(M),iu<Y(M)))),1,0)))
        return out
    E.templates=tpl
    out=E.run_fn(F,[P(this,0),P(vw,0),P(vp,0),R(alpha),P(cb,0),B(z3.Bool("profile"))],st); c.cover(q,f"return D={D}",[z3.BoolVal(bool(out))])
    for s,v in out:
        c.cover(q,"a path to the end",s.pc); mem=s.mem[this.id]; g=lambda k,sz:mem[(o[k],sz)]; b=B_of(E,s); La=toZ(E.wrapu(s,g("m_layers",4)))
        E.oblige(s,"m_w0 is the smallest, m_wn the largest weight, m_W the sum of the weights, m_alpha the given exponent",z3.And(toR(g("m_w0",8).t)==w0,toR(g("m_wn",8).t)==wn,toR(g("m_W",8).t)==W,toR(g("m_alpha",8).t)==alpha),assume=False)
        E.oblige(s,"m_n is the number of weights",toZ(E.wrapu(s,g("m_n",8)))==n,assume=False)
        E.oblige(s,"the base level constant is log2(W/w0^2) truncated",z3.And(z3.Implies(lg(x1)>=0,z3.And(z3.ToReal(b)<=lg(x1),lg(x1)<z3.ToReal(b)+1)),z3.Implies(lg(x1)<0,z3.And(z3.ToReal(b)>=lg(x1),z3.ToReal(b)<lg(x1)+1))),assume=False)
        E.oblige(s,"there are floor(log2(wn/w0))+1 layers",z3.And(z3.ToReal(La)-1<=lg(x2),lg(x2)<z3.ToReal(La)),assume=False)
        E.oblige(s,"the number of levels is one more than the comparison level of layers 0 and 0",toZ(E.wrapu(s,g("m_levels",4)))==rho(b,z3.IntVal(0),D,2)+1,assume=False)
        E.oblige(s,"the point index was built",z3.BoolVal(bool(s.tags.get("built"))),assume=False)
        E.oblige(s,"every ordered layer pair is scheduled exactly once, no other pair at all",s.g["cnt"]==z3.If(z3.And(iu<La,iv<La),1,0),assume=False)
    c.discharge(E,dict(layers=lay,iu=iu,iv=iv,D=D,n=n))
