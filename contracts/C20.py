"""C20 equal seeds and thread counts reproduce the same values and the same graph."""
from contracts.gtree import *
from contracts import gsample, gdraw, hsample, hgens
from contracts import htree
RX=r"seed|entropy|static schedule|random number generator|same for all threads|number of turns does not depend|task with the number fetched|worker t starts|fetched one by one"
KS=((True,True),(True,False),(False,True),(False,False))
def jobs(tier):
    r=[("generateWeights","gd",dict(which="generateWeights")),("generatePositions","gd",dict(which="generatePositions"))]
    r+=[(f"sampleRadiiAndAngles {a} {b}","hd",dict(radii=a,angles=b)) for a,b in((True,True),(True,False),(False,True))]
    for D in (5,4,3,2,1):
        r+=[(f"SpatialTree::generateEdges D={D}","ggen",dict(D=D)),(f"SpatialTree::sampleTypeII D={D}","gII",dict(D=D)),(f"SpatialTree::sampleTypeI D={D}","gI",dict(D=D))]
    return r+[("HyperbolicTree::generate","hgen",{}),("initialize_prngs","prngs",{}),("HyperbolicTree::sampleTypeI","hI",{}),("HyperbolicTree::sampleTypeII","hII",{}),("HyperbolicTree::visitCellPair","hvisit",{}),*[(f"HyperbolicTree::visitCellPairSample {o}","hshare",dict(o=o)) for o in((True,"other",False),(False,"other",False),(False,"other",True))],("graph","graph_lemma",{})]
def gd(c,which): only(RX); gdraw.gen(c,which)
def hd(c,radii,angles): only(RX); gdraw.hyp(c,radii,angles)
def gI(c,D): only(RX); gsample.typeI(c,D,(KS[1],),count=False)
def gII(c,D): only(RX); gsample.typeII(c,D)
def hI(c): only(RX); hsample.typeI(c,(KS[1],),zero=False,count=False)
def hII(c): only(RX); hsample.typeII(c,zero=False)
def hgen(c): only(RX); htree.generate(c)
def prngs(c): only(None or "."); hgens.init_prngs(c)
def hvisit(c): only(RX); htree.visit(c)
def hshare(c,o): only(RX); htree.share(c,(o,))
def ggen(c,D):
    only(RX); f=z3.Int("fgen"); ph={}
    def extra(what,E,st,x):
        if what=="init":
            T=x; st.g["seeded"]=z3.IntVal(0); st.pc+=[0<=f,f<z3.Int("omp_threads")]; old=E.templates
            def tpl(L):
                d=lambda M:M.st.g["seeded"]-M.entry.g["seeded"]
                return [("generators seeded so far",lambda M:d(M)==z3.If(f<M.K,1,0)),("no generator seeded",lambda M:d(M)==0)]+[(f"loop variable {i} counts",lambda M,get=get:toZ(get(M.st).t)==toZ(get(M.entry).t)+M.K) for i,get in enumerate(L.ints())]+old(L)
            E.templates=tpl
            def static(e,s,a,i):
                k=conc(simp(toZ(a[2].t))); e.oblige(s,"cells are assigned to threads by a static schedule (the same assignment in every run)",z3.BoolVal(k in(33,34)),"post"); return UNDEF
            for nm in("4","8","4u","8u"): E.C["__kmpc_for_static_init_"+nm]=static
            def dyn(e,s,a,i): c.lemma(e.fn_name,"cells are assigned to threads by a static schedule (the same assignment in every run)",[],z3.BoolVal(False)); raise Unsupported("dynamic schedule")
            for nm in("4","8","4u","8u"): E.C["__kmpc_dispatch_init_"+nm]=dyn
        elif what=="seed":
            idx,sx,seed,tn=x; idx=z3.simplify(toZ(idx)); sx=z3.simplify(toZ(sx)); fv={str(v):v for v in gdraw.fv(sx)}; iv=[v for v in gdraw.fv(idx) if not str(v).startswith(("seed","omp_"))]
            E.oblige(st,"for a non-negative seed the generator's seed depends on nothing but the seed and the generator's number",z3.Or(seed<0,z3.BoolVal(not any(n.startswith(("entropy","omp_gtid","omp_tid")) for n in fv))),"post")
            sub=[(v,z3.Int(str(v)+"'")) for v in iv]; i2=z3.substitute(idx,*sub) if sub else idx
            E.oblige(st,"different threads' generators get different seeds",z3.Implies(z3.And(seed>=0,seed+tn<(1<<31),i2>=0,i2<tn,i2!=idx),(z3.substitute(sx,*sub) if sub else sx)!=sx),"post",assume=False)
            s2=z3.Int("seed2"); E.oblige(st,"changing the seed changes the generator's seed",z3.Implies(z3.And(seed>=0,seed+tn<(1<<31),s2>=0,s2+tn<(1<<31),s2!=seed),z3.substitute(sx,(seed,s2))!=sx),"post",assume=False)
            st.g["seeded"]=z3.simplify(st.g["seeded"]+z3.If(idx==f,1,0)); E.note_write(("g","seeded"))
        elif what=="end": E.oblige(st,"every thread's generator is seeded exactly once",st.g["seeded"]==1,assume=False)
    gen_edges(c,D,extra=extra)
def graph_lemma(c):
    t,i,j,mx,g,h=z3.Ints("t i j mx g h")
    c.lemma("lemma","workers (generators 0..max-2) and tasks (generators max-1+number) never share a generator",[mx>=2,0<=t,t<mx-1,0<=g,0<=h,g!=h],z3.And(t!=mx-1+g,mx-1+g!=mx-1+h))
GS=["source/girgs/source/Generator.cpp","source/girgs/source/WeightScaling.cpp"]; HS=["source/hypergirgs/source/Generator.cpp","source/hypergirgs/source/RadiusLayer.cpp","source/hypergirgs/source/AngleHelper.cpp"]
def replay(N,refuted,unknown,errors):
    sec=14 if N.tier=="quick" else 240
    N.drive_par("repro.cpp",[["girg",N.seed,sec],["hrg",N.seed,sec]],defs=["NDEBUG"],repo_sources=GS+HS,what="repeated calls of the real functions with equal seeds and thread counts (1..16 threads, background load) compared; different seeds must differ",timeout=sec*6+60)
RULE="calls repeated; non-trivial if the sample is large enough for different seeds to differ"
LEVEL="proof"
ASSUMPTIONS=["OpenMP's static schedule assigns iterations to threads as a function of thread count and thread number","the team has omp_get_max_threads() threads in both runs (or any fixed number)","the pairs and their order within a thread depend only on the inputs (contracts of the recursion, C07/C08; the index is built by a stable sort, C13 to C15)","seed + number of threads fits an int","seed_seq blocks of 312 drawn words differ; two different seeds give different mt19937_64 streams"]
EXPLANATION="For every generator function the obligations are: entropy is used for negative seeds only; each thread's generator is seeded exactly once by an expression that depends only on seed and thread number, injective in both; loops that draw numbers use the static schedule; every number is drawn from the thread's own generator (sampleTypeI/II), in hyperbolic sampling from the generator received, which generate() proves to be the worker's own or the task's own, fetched tasks being carried out exactly once by whoever fetches them; initialize_prngs is proved to build generator k from the k-th disjoint block of a master generator seeded with the given seed."
