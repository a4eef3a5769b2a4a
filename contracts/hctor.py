"""HyperbolicTree's constructor: constants, the schedule of layer pairs (C06), the filters (C12, C11)"""
from contracts.htree import *
from contracts.hpoint import TAU,_subs
def intvars(L):
    """getters of the 4-byte loop variables in scope: outer to inner"""
    out=[]
    for (F,h,K,entry) in list(L.outer)+[(L.F,L.h,L.K,L.entry)]:
        for p_ in F.blocks[h].phis:
            v=L.st.env.get(p_.id)
            if isinstance(v,I) and v.w==32: out.append(("phi%s"%p_.id,lambda M,i=p_.id:toZ(M.st.env[i].t)))
    if any(isinstance(v,I) and v.w==32 for _,v in L.phis()): return out
    for rid in sorted(L.eng.locals_):
        for k,v in (L.st.mem.get(rid) or {}).items():
            if isinstance(k,tuple) and isinstance(k[0],int) and k[1]==4 and isinstance(v,I): out.append((f"local{rid}+{k[0]}",lambda M,rid=rid,k=k:toZ(M.st.mem[rid][k].t)))
    return out
one=lambda b:z3.If(b,1,0)
def ctor(c,zero=False):
    m=c.load(htu(),hkeep); q=HT+"HyperbolicTree"; F=c.fn(m,q); E=Engine(m,name=q); st=State(); o={k:const(m,"off_"+k) for k in HMEM}
    n,lay=z3.Ints("n num_layers"); Rr,T=z3.Reals("R T"); iu,iv,fl=z3.Ints("iu iv fl"); PB=UF("PBLr",RS(),RS(),IS()); HD=UF("hyperbolicDistance",*[RS()]*5); PREC=UF("PREC",RS(),RS()); tgt0=z3.Int("target_level_0")
    st.pc+=[n>=1,n<(1<<31)-1,lay>=1,lay<=30000,lay*lay<=900000000,lay*lay>=lay,Rr>0,(T==0) if zero else z3.And(T>0,T<1),0<=iu,iu<lay,0<=iv,iv<lay,0<=tgt0,tgt0<=30]
    this=E.new_obj(st,"this"); rad=E.new_arr(st,"radii",8,{0:("real",)},n); ang=E.new_arr(st,"angles",8,{0:("real",)},n); rad.readonly=ang.readonly=True
    vr=E.new_obj(st,"radii vector",{(0,8):P(rad,0),(8,8):P(rad,8*n),(16,8):P(rad,8*n)}); va=E.new_obj(st,"angles vector",{(0,8):P(ang,0),(8,8):P(ang,8*n),(16,8):P(ang,8*n)}); vr.readonly=va.readonly=True; cb=E.new_obj(st,"callback")
    szl=const(m,"size_layer"); szf=const(m,"size_filter"); RM=None
    layers=E.new_arr(st,"radius layers",szl,{const(m,"layer_m_r_min"):("real",),const(m,"layer_m_target_level"):("int",32)},lay); layers.readonly=True
    rm=st.mem[layers.id][const(m,"layer_m_r_min")]; TG=st.mem[layers.id][const(m,"layer_m_target_level")]; r=lambda i:z3.Select(rm,i); PBL=lambda i,j:PB(r(i),r(j))
    TGL=lambda i:z3.Select(TG,i); st.pc+=[TGL(z3.IntVal(0))==tgt0]
    def layer_hook(e,s,i,v):
        i=toZ(i); s.pc+=[z3.Implies(z3.And(0<=i,i<lay),z3.And(r(i)>=0,r(i)<Rr,TGL(i)<=tgt0,TGL(i)>=0))]
    layers.hooks[const(m,"layer_m_r_min")]=[layer_hook]; layers.hooks[const(m,"layer_m_target_level")]=[layer_hook]
    pairs=E.new_arr(st,"m_layer_pairs",24,{},z3.Int("npairs")); filters=E.new_arr(st,"m_typeII_filter",24,{},z3.Int("nfilters"))
    st.g.update(cnt=z3.IntVal(0),flen=z3.IntVal(0),lvl=z3.IntVal(-1)); ptr=P; noop=lambda e,s,a,i:UNDEF
    def vec0(e,s,a,i):
        if a[0].r is not this: raise Unsupported("vector constructor")
        for d in(0,8,16): e.store(s,e.padd(a[0],d),P(None,0),_p()); 
        return UNDEF
    def bp(e,s,a,i):
        if len(a)!=8: raise Unsupported("buildPartition's arguments")
        E.oblige(s,"the partition is built from the given radii and angles",z3.BoolVal(a[1].r is vr and a[2].r is va and conc(toZ(a[1].o))==0 and conc(toZ(a[2].o))==0),"pre"); E.oblige(s,"the partition is built for radius R with layers of height 1",z3.And(toR(a[3].t)==Rr,toR(a[4].t)==1),"pre")
        E.oblige(s,"the partition fills the tree's points and prefix sums",z3.BoolVal(a[5].r is this and conc(toZ(a[5].o))==o["m_points"] and a[6].r is this and conc(toZ(a[6].o))==o["m_first_in_cell"]),"pre")
        for d,v in((0,P(layers,0)),(8,P(layers,z3.simplify(szl*lay))),(16,P(layers,z3.simplify(szl*lay)))): e.store(s,e.padd(a[0],d),v,_p())
        return UNDEF
    def assign(e,s,a,i):
        for d in(0,8,16): e.store(s,e.padd(a[0],d),e.load(s,e.padd(a[1],d),_p()),_p())
        return a[0]
    def resize(e,s,a,i):
        k=toZ(e.wrapu(s,a[1])); of=conc(toZ(a[0].o)) if a[0].r is this else None
        if of==o["m_layer_pairs"]: E.oblige(s,"there is a list of layer pairs for every level",k==tgt0+1,"pre"); reg=pairs
        elif of==o["m_typeII_filter"]: E.oblige(s,"there is a filter list for every layer pair",k==lay*lay,"pre"); reg=filters
        else: raise Unsupported("resize of another vector")
        for d,v in((0,P(reg,0)),(8,P(reg,z3.simplify(24*k))),(16,P(reg,z3.simplify(24*k)))): e.store(s,e.padd(a[0],d),v,_p())
        return UNDEF
    def emplace(e,s,a,i):
        if a[0].r is not pairs: raise Unsupported("emplace_back to another vector")
        k,f=e.split_off(s,pairs,a[0].o,0); k=toZ(k); x,y=[toZ(e.wrapu(s,e.load(s,p,_i32()))) for p in a[1:3]]
        E.oblige(s,"layer pairs are stored on a level that exists",z3.And(0<=k,k<=tgt0),"bounds"); E.oblige(s,"a layer pair is stored on its comparison level",z3.And(0<=x,x<lay,0<=y,y<lay,k==PBL(x,y)),"post")
        s.g["cnt"]=z3.simplify(s.g["cnt"]+one(z3.And(x==iu,y==iv))); e.note_write(("g","cnt")); return UNDEF
    def pbl(e,s,a,i):
        x,y=toR(a[1].t),toR(a[2].t); v=PB(x,y); s.pc+=[v>=0,v<=30,v<=tgt0]     # C06: at most the insertion level of either layer, and layer 0's is the deepest
        return I(32,v,0,30)
    def dfilter(e,s,a,i):
        mp,R_,T_=[toR(x.t) for x in a[1:4]]; E.oblige(s,"filters are built for R and T",z3.And(R_==Rr,T_==T),"pre"); d=_d()
        if a[0].r is this:
            if conc(toZ(a[0].o))!=o["m_typeI_filter"]: raise Unsupported("filter inside the tree")
            E.oblige(s,"the filter for direct tosses covers every probability",mp==1,"pre"); return UNDEF
        if not zero: E.oblige(s,"a filter covers a range up to a probability",z3.And(mp>0,mp<=1),"pre")
        e.store(s,a[0],R(mp),d); return UNDEF
    def dist(e,s,a,i):
        x,y,l=[toZ(e.wrapu(s,v)) for v in a[-3:]]; F0=T_.FIRST(z3.simplify(l)); 
        E.oblige(s,"the reference cells are of that level",z3.And(F0<=x,F0<=y,x<T_.FIRST(z3.simplify(l+1)),y<T_.FIRST(z3.simplify(l+1))),"pre")
        nn=T_.FIRST(z3.simplify(l+1))-F0; v=z3.Real(e.name("angle")); cd=circ(x,y,nn); s.pc+=[v*z3.ToReal(nn)==z3.ToReal(z3.If(cd<=1,0,cd-1))*toZ(TAU),nn==N2(z3.simplify(l)),z3.Implies(l>=2,nn>=4),z3.Implies(l>=3,nn>=8)]     # C05, C02
        return R(v)
    class T0: pass
    T_=T0(); T_.FIRST=UF("FIRST",IS(),IS())
    def first(e,s,a,i):
        l=toZ(e.wrapu(s,a[-1])); E.oblige(s,"level fits the 32-bit numbering",z3.And(l>=0,l<=31),"pre"); L=z3.simplify(l)
        s.pc+=[T_.FIRST(z3.simplify(L+1))==T_.FIRST(L)+N2(L),T_.FIRST(L)==N2(L)-1,z3.Implies(L>=2,N2(L)>=4),z3.Implies(L>=3,N2(L)>=8),N2(L)>=1,z3.Implies(L<=31,N2(L)<=(1<<31))]; v=T_.FIRST(L); s.pc+=[v>=0,v<(1<<32)]; return I(32,v,0,(1<<32)-1)
    def hd(e,s,a,i): v=HD(*[toR(x.t) for x in a]); return R(v)
    def prec(e,s,a,i): v=PREC(toR(a[1].t)); s.pc.append(v>1); return R(v)
    N2=UF("cells_of_level",IS(),IS())
    def push(e,s,a,i):
        if a[0].r is not filters: raise Unsupported("push_back to another vector")
        ix,f=e.split_off(s,filters,a[0].o,0); ix=toZ(ix); E.oblige(s,"the filter list exists",z3.And(0<=ix,ix<lay*lay),"bounds")
        m1,m2=[toR(e.load(s,e.padd(a[1],d),_d()).t) for d in(0,szf)]; g=s.g; mine=z3.And(ix==iu*lay+iv); l=z3.simplify(g["flen"]+2)
        # position flen of the list is for level flen+2: one cell (two cells) between, i.e. an angle of one (two) cell widths
        for w,mp in((1,m1),(2,m2)):
            terms=[t for t in _subs(mp) if z3.is_app(t) and t.decl().name()=="hyperbolicDistance"]; x=z3.Real(e.name("width"))
            if len(terms)!=1: E.oblige(s,"a filter's range ends at the largest probability of the layers and cells",z3.BoolVal(False),"post"); continue
            t=terms[0]; an=t.arg(3); E.oblige(s,f"the list of a layer pair grows by the filters of its next level: layers' inner radii and an angle of {w} cell width{'s' if w>1 else ''}",z3.Implies(mine,z3.And(t.arg(0)==r(iu),t.arg(2)==r(iv),t.arg(1)==0,z3.Implies(l>=w+1,an*z3.ToReal(N2(l))==w*toZ(TAU)))),"post")      # level 2 has no cells with two cells between (lemma)
            E.oblige(s,"a filter's range ends at the probability for the smallest distance",mp*PREC(t)==1,"post")
        s.g["flen"]=z3.simplify(g["flen"]+one(mine)); e.note_write(("g","flen")); return UNDEF
    E.C.update({"std::vector::vector":vec0,"std::vector::~vector":noop,"std::vector::operator=":assign,"std::vector::resize":resize,"std::vector::emplace_back":emplace,"std::vector::push_back":push,RL+"buildPartition":bp,
        HT+"partitioningBaseLevel":pbl,DF+"DistanceFilter":dfilter,AH+"dist":dist,AH+"firstCellOfLevel":first,"hypergirgs::hyperbolicDistance":hd,HT+"connectionProbRec":prec,"ScopedTimer::ScopedTimer":noop,"ScopedTimer::~ScopedTimer":noop,"std::__cxx11::basic_string::basic_string":noop,"std::__cxx11::basic_string::~basic_string":noop})
    rt.libm(E)
    def tpl(L):
        iv_=intvars(L); out=[]; mods=[k[1] for k in L.ctx.get('mods',()) if k[0]=='g']; full=z3.If(PBL(iu,iv)>=2,PBL(iu,iv)-1,0); row=lambda x,y:z3.Implies(z3.And(0<=y,y<lay,0<=iv,iv<lay),(x*lay+y==iu*lay+iv)==z3.And(x==iu,y==iv)); below=lambda x:z3.Implies(z3.And(0<=x,x<lay),z3.And(x*lay>=0,x*lay+lay<=lay*lay))      # lemmas 'row-major'
        for nx,X in iv_:
            out.append((f"{nx} in range",lambda M,X=X:z3.And(X(M)>=0,X(M)<=lay)))
            out.append((f"{nx} is a level",lambda M,X=X:z3.And(X(M)>=2,X(M)<=31)))
            for gh,fin in [k for k in(("cnt",z3.IntVal(1)),("flen",full)) if k[0] in mods]: out.append((f"{gh} after rows below {nx}",lambda M,X=X,gh=gh,fin=fin:M.st.g[gh]==z3.If(iu<X(M),fin,0)))
            for ny,Y in iv_:
                if nx==ny: continue
                def rw(M,X=X,Y=Y): M.st.pc+=[row(X(M),Y(M)),below(X(M))]; return z3.And(X(M)>=0,Y(M)>=0)
                out.append(("row-major",rw))
                for gh,fin in [k for k in(("cnt",z3.IntVal(1)),("flen",full)) if k[0] in mods]: out.append((f"{gh} after rows below {nx}, columns below {ny}",lambda M,X=X,Y=Y,gh=gh,fin=fin:M.st.g[gh]==z3.If(z3.Or(iu<X(M),z3.And(iu==X(M),iv<Y(M))),fin,0)))
                for nl,Lv in (iv_ if 'flen' in mods else ()):
                    if nl in(nx,ny): continue
                    out.append((f"flen at {nx},{ny}, levels below {nl}",lambda M,X=X,Y=Y,Lv=Lv:z3.And(M.st.g["flen"]==z3.If(z3.And(iu==X(M),iv==Y(M)),Lv(M)-2,z3.If(z3.Or(iu<X(M),z3.And(iu==X(M),iv<Y(M))),full,0)),Lv(M)<=z3.If(PBL(X(M),Y(M))>=2,PBL(X(M),Y(M))+1,2))))
        return out
    E.templates=tpl
    out=E.run_fn(F,[P(this,0),P(vr,0),P(va,0),R(T),R(Rr),P(cb,0),B(z3.Bool("profile"))],st); c.cover(q,"return",[z3.BoolVal(bool(out))])
    for s,v in out:
        c.cover(q,"a path to the end",s.pc); mem=s.mem[this.id]; g=lambda k,sz:mem[(o[k],sz)]
        E.oblige(s,"m_coshR is cosh(R), m_R is R, m_T is T",z3.And(toR(g("m_coshR",8).t)==rfun("cosh",1)(Rr),toR(g("m_R",8).t)==Rr,toR(g("m_T",8).t)==T),assume=False)
        E.oblige(s,"m_n is the number of radii, m_layers the number of layers, m_levels one more than the insertion level of layer 0",z3.And(toZ(E.wrapu(s,g("m_n",8)))==n,toZ(E.wrapu(s,g("m_layers",4)))==lay,toZ(E.wrapu(s,g("m_levels",4)))==tgt0+1),assume=False)
        E.oblige(s,"every ordered layer pair is scheduled exactly once",s.g["cnt"]==1,assume=False)
        if not zero: E.oblige(s,"every layer pair has filters for the levels 2 to its comparison level",s.g["flen"]==z3.If(PBL(iu,iv)>=2,PBL(iu,iv)-1,0),assume=False)
    c.lemma("lemma","row-major: the list of a layer pair exists",[0<=iu,iu<lay,(iu+1)*lay<=lay*lay],z3.And(iu*lay>=0,iu*lay+lay<=lay*lay))
    a_,b_,n_=z3.Ints("a b cells"); c.lemma("lemma","cells with two cells between them exist from level 3 on",[0<=a_,a_<n_,0<=b_,b_<n_,z3.Or(n_==1,n_==2,n_==4)],circ(a_,b_,n_)-1<2)
    c.discharge(E,dict(layers=lay,iu=iu,iv=iv))
    x,y=z3.Ints("x y"); c.lemma("lemma","row-major: different layer pairs have different filter lists",[0<=y,y<lay,0<=iv,iv<lay,0<=iu,iu<lay,0<=x,x<lay,z3.Implies(x<iu,x*lay+lay<=iu*lay),z3.Implies(iu<x,iu*lay+lay<=x*lay)],(x*lay+y==iu*lay+iv)==z3.And(x==iu,y==iv))
def _p():
    t=llvmc.Ty(); t.kind="ptr"; t.w=64; t.size=8; return t
def _d():
    t=llvmc.Ty(); t.kind="double"; t.w=64; t.size=8; return t
def _i32():
    t=llvmc.Ty(); t.kind="int"; t.w=32; t.size=4; return t
def wrap(c):
    """HyperbolicTree::partitioningBaseLevel(r1,r2) is the level for radius m_R"""
    m=c.load(htu(),hkeep); q=HT+"partitioningBaseLevel"; F=c.fn(m,q); E=Engine(m,name=q); st=State(); a,b,Rr=z3.Reals("r1 r2 R"); this=E.new_obj(st,"this"); this.readonly=True; st.mem[this.id][(const(m,"off_m_R"),8)]=R(Rr)
    PB=UF("PBL3",RS(),RS(),RS(),IS())
    def h(e,s,x,i): v=PB(*[toR(k.t) for k in x[-3:]]); s.pc+=[v>=0,v<=30]; return I(32,v,0,30)
    E.C[RL+"partitioningBaseLevel"]=h; out=E.run_fn(F,[P(this,0),R(a),R(b)],st); c.cover(q,"return",[z3.BoolVal(bool(out))])
    for s,v in out: E.oblige(s,"the level of a layer pair is that of RadiusLayer::partitioningBaseLevel for the tree's radius",z3.Or(toZ(E.wrapu(s,v))==PB(a,b,Rr),z3.And(toZ(E.wrapu(s,v))==PB(b,a,Rr),z3.BoolVal(True))),assume=False)
    c.discharge(E)
