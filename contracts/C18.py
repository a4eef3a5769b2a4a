"""C18 hyperbolic coordinates and the radius."""
from contracts.gdraw import *
from contracts.gdraw import _pty
CASES=((True,True),(True,False),(False,True))
def jobs(tier): return [(f"sampleRadiiAndAnglesHelper radii={r} angles={a}","helper",dict(r=r,a=a)) for r,a in CASES]+[("wrappers","wrappers",{}),("calculateRadius","radius",{}),("calculateRadiusLikeNetworKit","nkr",{}),("lemmas","lemmas",{})]
def helper(c,r,a): hyp(c,r,a)
def lemmas(c):
    a,Rr,u,r=z3.Reals("alpha R u r"); ch=rfun("cosh",1); ac=rfun("acosh",1)
    facts=[a>0,Rr>0,1<u,u<ch(a*Rr),r==ac(u)/a,ch(ac(u))==u,ac(u)>0,z3.Implies(u<=ch(a*Rr),ac(u)<=a*Rr),a*r==ac(u)]
    c.lemma("lemma","radii lie in (0,R]",facts,z3.And(r>0,r<=Rr))
    c.lemma("lemma","the transform inverts the distribution function: (cosh(alpha r)-1)/(cosh(alpha R)-1) equals the uniform number, whose density is alpha sinh(alpha r)/(cosh(alpha R)-1)",facts,(ch(a*r)-1)/(ch(a*Rr)-1)==(u-1)/(ch(a*Rr)-1))
def wrappers(c):
    """sampleRadii, sampleAngles and sampleRadiiAndAngles return the results of the helper, called with their arguments"""
    m=c.load(tu_h(),keepfn); n,seed=z3.Ints("n seed"); al,Rr=z3.Reals("alpha R"); par=z3.Bool("parallel")
    for nm,rf,af in(("sampleRadii",True,False),("sampleAngles",False,True),("sampleRadiiAndAngles",True,True)):
        q=H+nm; F=c.fn(m,q); E=Engine(m,name=q); st=State(); st.pc+=[n>=1,n<(1<<31)-1,seed>=-(1<<31),seed<(1<<31)]
        def vec(e,s,a,i):
            if len(a)>1 and isinstance(a[1],P) and a[1].r is not None:
                for off in(0,8,16): e.store(s,e.padd(a[0],off),e.load(s,e.padd(a[1],off),_pty()),_pty())
                return UNDEF
            raise Unsupported("vector constructor")
        made={}
        def hp(e,s,a,i):
            o=1; N_,A_,R_,S_,P_=a[o:o+5]
            e.oblige(s,"the helper is called with n, seed and the parallel flag",z3.And(toZ(e.wraps(s,N_))==n,toZ(e.wraps(s,S_))==seed,_b(P_)==par),"pre")
            if rf: e.oblige(s,"the helper is called with alpha and R",z3.And(toR(A_.t)==al,toR(R_.t)==Rr),"pre")
            else: e.oblige(s,"the parameters of unused radii are valid",z3.And(toR(A_.t)>0,toR(R_.t)>0),"pre")
            want=f"Helper<{str(rf).lower()}, {str(af).lower()}>" ; e.oblige(s,"the helper produces the requested outputs",z3.BoolVal(want in i.callee if isinstance(getattr(i,'callee',None),str) else True),"pre")
            for off,k in((0,"radii"),(24,"angles")):
                r=e.new_arr(s,k,8,{0:("real",64)},n); made[r.id]=k
                for d,v in((0,P(r,0)),(8,P(r,8*n)),(16,P(r,8*n))): e.store(s,e.padd(a[0],off+d),v,_pty())
            return UNDEF
        E.C={H+"sampleRadiiAndAnglesHelper":hp,"std::vector::vector":vec,"std::vector::~vector":lambda e,s,a,i:UNDEF}
        sret=E.new_obj(st,"result"); args=[P(sret,0),I(32,n,0,(1<<31)-1)]+([R(al),R(Rr)] if rf else [])+[I(32,seed,-(1<<31),(1<<31)-1),B(par)]
        out=E.run_fn(F,args,st); c.cover(q,nm,[z3.BoolVal(bool(out))])
        for s,v in out:
            for off,k in ([(0,"radii")] if rf else [])+([(24 if rf else 0,"angles")] if af else []):
                b=E.load(s,P(sret,off),_pty()); E.oblige(s,f"the {k} are returned",z3.BoolVal(isinstance(b,P) and b.r is not None and made.get(b.r.id)==k),assume=False)
        c.discharge(E,dict(n=n,seed=seed))
def _b(v): return toZ(v.t) if isinstance(v,B) else toZ(v.t)!=0
def _calls(E,names):
    log=[]
    def mf(eng,st,name,xs,r):
        if name in names: st.tags["calls"]=st.tags.get("calls",())+((name,tuple(xs),r),)
        if name=="sin": st.pc+=[z3.Implies(z3.And(xs[0]>0,xs[0]<toZ(PI_D)),r>0)]
        if name=="exp": st.pc+=[r>0]
    rt.libm(E,mf); return log
TOL=z3.RealVal("1/1000000000000")     # constants of the code such as 1/pi are rounded doubles
def _formula(E,s,v,name,num,den):
    """v == 2*log(x) with x*den == num"""
    cs=[k for k in s.tags.get("calls",()) if k[0]=="log"]
    if not cs: E.oblige(s,name,z3.BoolVal(False),assume=False); return
    _,(x,),r=cs[-1]
    E.oblige(s,name+": the result is 2 ln(x)",toR(v.t)==2*r,assume=False); E.oblige(s,name+": x is the documented quotient",z3.And(x*den<=num*(1+TOL),x*den>=num*(1-TOL)),assume=False)
def radius(c):
    m=c.load(tu_h(),keepfn); q=H+"calculateRadius"; F=c.fn(m,q); n=z3.Int("n"); al,T,deg=z3.Reals("alpha T deg"); pi=toZ(PI_D)
    for cold in(True,False):
        E=Engine(m,name=q); st=State(); _calls(E,("log","sin")); st.pc+=[n>=1,n<(1<<31),al>z3.Q(1,2),al<=1,deg>0]+([T==0] if cold else [T>0,T<1])
        out=E.run_fn(F,[I(32,n,1,(1<<31)-1),R(al),R(T),R(deg)],st); c.cover(q,f"T==0: {cold}",[z3.BoolVal(bool(out))])
        for s,v in out:
            N_=z3.ToReal(n); h=al-z3.Q(1,2)
            if cold: _formula(E,s,v,"T=0: R = 2 ln(2 n alpha^2 / (pi deg (alpha-1/2)^2))",N_*2*al*al,pi*deg*h*h)
            else:
                sn=rfun("sin",1)(pi*T); _formula(E,s,v,"T>0: R = 2 ln(2 n alpha^2 T / (sin(pi T) deg (alpha-1/2)^2))",N_*2*al*al*T,sn*deg*h*h)
        c.discharge(E,dict(n=n,alpha=al,T=T,deg=deg))
def nkr(c):
    """the NetworKit-compatible variant: for T=0 a binary search that only stops within 0.01 of the target degree; for 0<T<1 the closed formula"""
    m=c.load(tu_h(),keepfn); n=z3.Int("n"); al,T,deg=z3.Reals("alpha T deg"); pi=toZ(PI_D); q=H+"calculateRadiusLikeNetworKit"
    N_=z3.ToReal(n); GED=UF("expected_degree",RS(),RS(),RS(),RS())
    def h_ged(e,s,a,i): return R(GED(*[toR(x.t) for x in a[:3]]))
    # getExpectedDegree computes its published formula
    qe=H+"getExpectedDegree"; Fe=c.fn(m,qe,must=False)
    if Fe is not None:
        E=Engine(m,name=qe); st=State(); ex,pw=rfun("exp",1),rfun("pow",2); nn,Rr=z3.Reals("n_ R")
        def mf(eng,s,name,xs,r):
            if name=="pow": s.pc+=[z3.Implies(xs[1]==2,r==xs[0]*xs[0])]
            if name=="exp": s.pc+=[r>0]
        rt.libm(E,mf); st.pc+=[nn>0,al>z3.Q(1,2),al<=1,Rr>0]
        out=E.run_fn(Fe,[R(nn),R(al),R(Rr)],st); c.cover(qe,"all",[z3.BoolVal(bool(out))])
        for s,v in out:
            s.pc+=[ex(-Rr/2)>0,ex(-al*Rr)>0]; xi=2*al/(2*al-1); ia=1/al; e1,e2=ex(-Rr/2),ex(-al*Rr); k=al*(Rr/2)*((pi/4)*ia*ia-(pi-1)*ia+(pi-2))-1
            E.oblige(s,"the expected degree is 2/pi xi^2 n (exp(-R/2) + exp(-alpha R)(alpha R/2 ((pi/4)/alpha^2 - (pi-1)/alpha + pi-2) - 1))",(lambda d,b:z3.And(d<=TOL*b,-d<=TOL*b))(toR(v.t)-(2/pi)*xi*xi*nn*(e1+e2*k),xi*xi*nn*(e1+e2*(al*(Rr/2)*(ia*ia+3*ia+2)+1))),assume=False)
        c.discharge(E,dict(alpha=al,R=Rr))
    F=c.fn(m,q)
    for cold in(True,False):
        E=Engine(m,name=q); st=State(); _calls(E,("log","sin")); st.pc+=[n>=1,n<(1<<31),al>z3.Q(1,2),al<=1,deg>0]+([T==0] if cold else [T>0,T<1])
        SR=UF("searched_R",RS(),RS(),RS(),RS(),RS())
        def h_search(e,s,a,i):
            e.oblige(s,"the search is asked for n, the target degree and alpha, with a tolerance of at most 0.01",z3.And(toR(a[0].t)==N_,toR(a[1].t)==deg,toR(a[2].t)==al,toR(a[3].t)>0,toR(a[3].t)<=z3.RealVal("0.01000001")),"pre"); r=SR(*[toR(x.t) for x in a[:4]])
            s.pc.append(z3.And(GED(N_,al,r)-deg<=toR(a[3].t),deg-GED(N_,al,r)<=toR(a[3].t))); return R(r)
        E.C[H+"searchTargetRadiusForColdGraphs"]=h_search; E.C[H+"getExpectedDegree"]=h_ged
        Fg=m.funcs
        out=E.run_fn(F,[I(32,n,1,(1<<31)-1),R(al),R(T),R(deg)],st) if c.fn(m,H+"getTargetRadius",must=False) is None else None
        if out is None:
            # getTargetRadius is a function of its own: execute it in place
            g=c.fn(m,H+"getTargetRadius"); E.C[H+"getTargetRadius"]=lambda e,s,a,i:e.run_fn(g,a,s); out=E.run_fn(F,[I(32,n,1,(1<<31)-1),R(al),R(T),R(deg)],st)
        c.cover(q,f"T==0: {cold}",[z3.BoolVal(bool(out))])
        for s,v in out:
            if cold: d=GED(N_,al,toR(v.t))-deg; E.oblige(s,"T=0: the returned radius meets the target degree within 0.01",z3.And(d<=z3.RealVal("0.010001"),-d<=z3.RealVal("0.010001")),assume=False)
            else:
                sn=[k for k in s.tags.get("calls",()) if k[0]=="sin"]
                if sn: s.pc+=[z3.Implies(sn[-1][1][0]*1==pi*T,True)]
                lg=[k for k in s.tags.get("calls",()) if k[0]=="log"]
                if not lg or not sn: E.oblige(s,"0<T<1: closed formula",z3.BoolVal(False),assume=False); continue
                E.oblige(s,"0<T<1: the result is 2 ln(x)",toR(v.t)==2*lg[-1][2],assume=False); E.oblige(s,"0<T<1: the sine is taken of pi T",sn[-1][1][0]==pi*T,assume=False)
                xi=2*al/(2*al-1); E.oblige(s,"0<T<1: x = n / (deg (sin(pi T)/(pi T)) (pi/2) / xi^2)",lg[-1][1][0]*(deg*(sn[-1][2]/(pi*T))*(pi/2))==N_*xi*xi,assume=False)
        c.discharge(E,dict(n=n,alpha=al,T=T,deg=deg))
    qs=H+"searchTargetRadiusForColdGraphs"; Fs=c.fn(m,qs,must=False)
    if Fs is not None:
        E=Engine(m,name=qs); st=State(); rt.libm(E,lambda *a:None); k,eps,nn=z3.Reals("k eps n_"); E.C[H+"getExpectedDegree"]=h_ged; st.pc+=[nn>0,k>0,al>z3.Q(1,2),al<=1,eps>0]
        out=E.run_fn(Fs,[R(nn),R(k),R(al),R(eps)],st); c.cover(qs,"all",[z3.BoolVal(bool(out))])
        for s,v in out: d=GED(nn,al,toR(v.t))-k; E.oblige(s,"the search only returns a radius whose expected degree is within epsilon of the target",z3.And(d<=eps,-d<=eps),assume=False)
        c.discharge(E,dict(n=nn,k=k,alpha=al,eps=eps))
def replay(N,refuted,unknown,errors):
    N.drive("draw.cpp",defs=["NDEBUG"],args=["hrg",N.seed,1 if N.tier=="quick" else 20],repo_sources=["source/hypergirgs/source/Generator.cpp","source/hypergirgs/source/AngleHelper.cpp","source/hypergirgs/source/RadiusLayer.cpp"],what="sizes, ranges, Kolmogorov-Smirnov distance of radii and angles, repeated numbers within and between threads, and both radius formulas against an independent computation",timeout=300)
RULE="vectors and radii computed; non-trivial if n is at least 100"
LEVEL="proof"
ASSUMPTIONS=["double arithmetic is treated as real arithmetic; cosh/acosh are inverse and increasing","uniform_real_distribution yields uniform numbers and mersenne_twister_engine independent streams for different seeds (libstdc++); nextafter(1,2) is within 1e-12 of 1","seed + number of threads fits an int","OpenMP static schedules cover every iteration exactly once","the binary search of the NetworKit variant terminates"]
EXPLANATION="sampleRadiiAndAnglesHelper (all three instances) with its outlined parallel region: every radius and angle is written exactly once from a random number drawn for it alone from the thread's own generator, uniform over the right interval, by the inverse transform; the wrappers return the right output of the right instance; calculateRadius computes the documented quotient and 2 ln; the NetworKit variant's search exits only within its tolerance and its formulas are the published ones."
