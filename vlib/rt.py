"""Contracts on the run-time libraries (assumed, listed in every evidence file that uses them): OpenMP, libm, <random>."""
import z3
from .sym import *
INT=IS=z3.IntSort
def ity(w):
    t=llvmc.Ty(); t.kind="int"; t.w=w; t.size=w//8; return t
def omp(E,T=None,tid=None):
    """OpenMP: `parallel for` executes every iteration exactly once (identity chunk); thread numbers are below the team size, which is at most omp_get_max_threads()"""
    T=T if T is not None else z3.Int("omp_threads"); E.omp_T=T
    def maxt(eng,st,a,inst): st.pc+=[T>=1,T<=(1<<20)]; return I(32,T,1,1<<20)
    def thr(eng,st,a,inst):
        t=tid if tid is not None else z3.Int("omp_tid"); st.pc+=[T>=1,T<=(1<<20),t>=0,t<T]; return I(32,t,0,(1<<20)-1)
    def team(eng,st,a,inst): return maxt(eng,st,a,inst)
    def fork(eng,st,a,inst):
        fn=a[2]
        if not isinstance(fn,FN): raise Unsupported("fork_call of an unknown function")
        g=eng.new_obj(st,"gtid"); t=tid if tid is not None else z3.Int("omp_tid"); st.pc+=[T>=1,T<=(1<<20),t>=0,t<T]; st.mem[g.id][(0,4)]=I(32,t,0,(1<<20)-1)
        eng.assumed.add("OpenMP executes every iteration of a worksharing loop exactly once, on some thread of the team")
        return [(s,UNDEF) for s,v in eng.run_fn(fn.f,[P(g,0),P(g,0)]+a[3:],st)]
    def noop(eng,st,a,inst): return I(32,0) if inst.ty.kind=="int" else UNDEF
    def static_init(eng,st,a,inst): return UNDEF
    E.C.update({"omp_get_max_threads":maxt,"omp_get_num_threads":team,"omp_get_thread_num":thr,"omp_get_level":lambda e,s,a,i:I(32,0),"__kmpc_fork_call":fork,"__kmpc_push_num_threads":noop,"__kmpc_global_thread_num":lambda e,s,a,i:I(32,z3.Int("omp_gtid"),0,1<<20),
        "__kmpc_for_static_init_4":static_init,"__kmpc_for_static_init_4u":static_init,"__kmpc_for_static_init_8":static_init,"__kmpc_for_static_init_8u":static_init,"__kmpc_for_static_fini":noop,"__kmpc_barrier":noop})
def libm(E,facts=None):
    """libm functions as uninterpreted real functions with the facts that are used (monotone, exact inverses), i.e. machine arithmetic treated as real"""
    def mk(name,n):
        f=rfun(name,n)
        def h(eng,st,a,inst):
            xs=[toR(v.t) for v in a[:n]]; r=f(*xs)
            if facts: facts(eng,st,name,xs,r)
            return R(r)
        return h
    for nm,n in(("log2",1),("log",1),("exp",1),("pow",2),("exp2",1),("cosh",1),("sinh",1),("acosh",1),("cos",1),("sin",1),("acos",1),("tan",1)): E.C.setdefault(nm,mk(nm,n)); E.C.setdefault("std::"+nm,mk(nm,n))
def random(E):
    noop=lambda e,s,a,i:UNDEF
    E.C.update({"std::random_device::random_device":noop,"std::random_device::~random_device":noop,"std::random_device::operator()":lambda e,s,a,i:I(32,z3.Int(e.name("entropy")),0,(1<<32)-1)})
