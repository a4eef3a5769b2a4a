"""Discharging obligations, running jobs in parallel, verdicts and evidence."""
import operator, z3, os, sys, time, json, re, subprocess, tempfile, shutil, traceback, multiprocessing as mp, hashlib, fcntl
from . import llvmc, sym
from .sym import *

REPO=os.environ.get("VERIF_REPO","/repo")
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GI=os.path.join(REPO,"source/girgs/include"); HI=os.path.join(REPO,"source/hypergirgs/include")
GEN=os.path.join(HERE,"harness/gen")

class Ctx:
    """what a proof job gets: compile on demand, then verify functions"""
    def __init__(s,work,tier,seed): s.work=work; s.tier=tier; s.seed=seed; s.results=[]; s.meta={"functions":set(),"contracts":set(),"assumed":set(),"solver_time":0.0,"queries":0,"cut_loops":0,"unrolled":0,"inv_obls":0,"houdini":[]}
    def load(s,tu,keep,defs=(),extra=(),openmp=True,std="c++11"):
        """tu: text of the translation unit; it only #includes /repo's files and instantiates templates"""
        h=hashlib.sha1((tu+repr(sorted(defs))+repr(extra)).encode()).hexdigest()[:16]
        src=os.path.join(s.work,h+".cpp")
        if not os.path.exists(src):
            with open(src+".%d"%os.getpid(),"w") as f: f.write(tu)
            os.replace(src+".%d"%os.getpid(),src)
        defs=list(defs)+["NDEBUG"]
        ll=os.path.join(s.work,h+".ll")
        with open(ll+".lock","w") as lk:
            fcntl.flock(lk,fcntl.LOCK_EX)
            if not os.path.exists(ll):
                p=llvmc.compile_ir(src,[GI,HI,GEN],defs,workdir=s.work,openmp=openmp,extra=extra,std=std)
                os.replace(p,ll)
        m=llvmc.Module(ll)
        if callable(keep): k=keep
        else:
            ks=set(keep); k=lambda n,d: sym.base_name(d) in ks or n in ks or n.endswith(".omp_outlined") or ".omp_outlined" in n
        m.normalise(k,llvmc.PASSES); return m.load()
    def fn(s,m,bn,must=True):
        r=[f for f in m.funcs.values() if not f.decl and sym.base_name(f.dname)==bn]
        if len(r)!=1:
            if not must: return None
            raise LookupError(f"{len(r)} functions named {bn} in the extracted code")
        return m.body(r[0])
    def absorb(s,eng):
        M=s.meta; M["functions"]|={sym.base_name(f) for f in eng.functions}; M["contracts"]|=eng.used_contracts; M["assumed"]|=eng.assumed
        M["solver_time"]+=eng.solver_time; M["queries"]+=eng.nq; M["cut_loops"]+=eng.cut_loops; M["unrolled"]+=eng.unrolled; M["inv_obls"]+=eng.inv_obls
        M["houdini"]+= [f"{a}:{b} {c}: {d}" for a,b,c,d in eng.houdini_log][-200:]
    def discharge(s,eng,inputs=None,timeout=10000,fn=None,maxbad=6):
        """decide every obligation the engine collected"""
        bad=0; inc=Inc()
        for o in eng.obls:
            r=inc.prove(o) or decide(o,timeout if bad<maxbad else 800,inputs)
            r["fn"]=fn or o.fn; s.results.append(r)
            if r["status"]!="proved": bad+=1
        eng.obls=[]; s.absorb(eng)
    def cover(s,fn,name,conds):
        """vacuity guard: the conjunction must be satisfiable (or at least not refutable)"""
        S=z3.Solver(); S.set("timeout",4000); S.add(*[c for c in conds if c is not True]); t=time.time(); r=S.check()
        s.results.append(dict(fn=fn,name="reachable: "+name,loc=None,kind="cover",status="proved" if r!=z3.unsat else "vacuous",backend="z3",time=time.time()-t))
    def lemma(s,fn,name,hyps,goal,inputs=None,timeout=10000):
        o=Obl(fn,name,[toZ(h) for h in hyps if h is not True],toZ(goal),None,"lemma"); r=decide(o,timeout,inputs); r["fn"]=fn; s.results.append(r); return r

class Inc:
    """obligations of one path share their hypotheses: keep them asserted and only ask for each new goal"""
    def __init__(s): s.cur=[]; s.ids=set(); s.S=None
    def prove(s,o):
        t=time.time(); hyp=o.hyp
        if len(s.cur)>len(hyp) or not all(map(operator.is_,s.cur,hyp)) or s.S is None: s.S=z3.Solver(); s.S.set("timeout",300); s.cur=[]; s.ids=set()
        new=hyp[len(s.cur):]; s.S.add(*new); s.ids.update(h.get_id() for h in new if not isinstance(h,bool)); s.cur=list(hyp)
        r=dict(name=o.name,loc="%s:%s"%(os.path.basename(o.loc[0] or "?"),o.loc[1]) if o.loc else None,kind=o.kind,status="proved",backend="z3")
        g=z3.simplify(o.goal)
        if z3.is_true(g): return dict(r,backend="simplifier",time=time.time()-t)
        if o.goal.get_id() in s.ids or g.get_id() in s.ids: return dict(r,backend="same goal already proved on this path",time=time.time()-t)
        s.S.push()
        try:
            s.S.add(z3.Not(o.goal)); q=s.S.check()
        except z3.Z3Exception: q=z3.unknown
        s.S.pop()
        return dict(r,time=time.time()-t) if q==z3.unsat else None
def model_inputs(m,inputs):
    out={}
    for k,t in (inputs or {}).items():
        if isinstance(t,(int,str)): out[k]=t; continue
        if not isinstance(t,z3.ExprRef): continue
        v=m.eval(t,model_completion=True)
        if z3.is_algebraic_value(v): v=v.approx(20)
        c=conc(v)
        if c is None: out[k]=str(v)
        else: out[k]=c if isinstance(c,(int,bool)) else float(c)
    return out

def decide(o,timeout,inputs=None):
    t=time.time(); res=dict(name=o.name,loc="%s:%s"%(os.path.basename(o.loc[0] or "?"),o.loc[1]) if o.loc else None,kind=o.kind,backend="z3")
    def done(st,**kw): res.update(status=st,time=time.time()-t,**kw); return res
    g=z3.simplify(o.goal)
    if z3.is_true(g): return done("proved",backend="simplifier")
    cut=not getattr(o,"loopfree",True)
    reason=None
    qh=list(o.qh)
    try:
        timeout=int(timeout*sym.SLOW["factor"]); S=z3.Solver(); S.set("timeout",timeout); S.add(*o.hyp); S.add(z3.Not(o.goal)); r=S.check()
        if r==z3.unsat: return done("proved")
        if r==z3.sat and not qh: return done("refuted",model=model_inputs(S.model(),inputs),goal=str(g)[:600],trace=str(o.trace)[:300])
        reason=S.reason_unknown() if r==z3.unknown else "sat without quantified hypotheses"
        if qh:
            S=z3.Solver(); S.set("timeout",timeout); S.add(*o.hyp); S.add(*qh); S.add(z3.Not(o.goal)); r=S.check()
            if r==z3.unsat: return done("proved",backend="z3+quant")
            if r==z3.sat: return done("refuted",model=model_inputs(S.model(),inputs),goal=str(g)[:600])
        # other strategies
        for tac in ("qfnra-nlsat","smt"):
            if qh and tac!="smt": continue
            T=z3.Then("simplify","propagate-values","solve-eqs",tac).solver() if tac!="smt" else z3.SolverFor("AUFNIRA")
            T.set("timeout",timeout); T.add(*o.hyp); T.add(*qh); T.add(z3.Not(o.goal))
            try: r=T.check()
            except z3.Z3Exception: continue
            if r==z3.unsat: return done("proved",backend="z3/"+tac)
        S=z3.Solver(); S.add(*o.hyp); S.add(*qh); S.add(z3.Not(o.goal)); txt="(set-logic ALL)\n"+S.to_smt2()
        r=cvc5_check(txt,timeout)
        if r=="unsat": return done("proved",backend="cvc5")
    except z3.Z3Exception as e: reason=str(e)
    return done("unknown",reason=reason,goal=str(g)[:600])

def cvc5_check(txt,timeout):
    try:
        p=subprocess.run(["cvc5","--lang=smt2","--tlimit=%d"%timeout,"-"],input=txt,capture_output=True,text=True,timeout=timeout/1000+5)
        return p.stdout.strip().split("\n")[0] if p.stdout else "unknown"
    except Exception: return "unknown"

def _run(a):
    prop,name,fnname,kw,work,tier,seed=a
    sys.path.insert(0,HERE)
    import importlib
    t=time.time()
    for factor in(1,6):
        # a query that runs into its time limit (a loaded machine) may cost an invariant: nothing is reported before a second run with larger limits
        c=Ctx(work,tier,seed); err=None; t1=time.time(); sym.SLOW.update(factor=factor,unknown=0)
        try:
            mod=importlib.import_module("contracts."+prop); getattr(mod,fnname)(c,**kw)
        except (Unsupported,LookupError,Fork,Dead) as e: err=f"{type(e).__name__}: {e}"
        except RuntimeError as e: err=f"{type(e).__name__}: {str(e)[:1500]}"
        except Exception as e: err="internal "+traceback.format_exc()[-1800:]
        if err is None and all(r["status"]=="proved" for r in c.results): break
        if not(sym.SLOW["unknown"] or any(r["status"]=="unknown" for r in c.results)) or time.time()-t1>160: break
    if err is None and not c.results: err="no obligation was generated"
    m=dict(c.meta)
    for k in("functions","contracts","assumed"): m[k]=sorted(m[k])
    return dict(job=name,results=c.results,meta=m,error=err,time=time.time()-t)

def run_jobs(prop,jobs,work,tier,seed,procs=8,budget=700):
    """jobs: [(name, function name in contracts.<prop>, kwargs)]"""
    out=[]; t0=time.time()
    with mp.get_context("fork").Pool(min(procs,max(1,len(jobs))),maxtasksperchild=1) as pool:
        rs=[(j,pool.apply_async(_run,((prop,j[0],j[1],j[2],work,tier,seed),))) for j in jobs]
        for j,r in rs:
            try: out.append(r.get(timeout=max(1,budget-(time.time()-t0))))
            except mp.TimeoutError: out.append(dict(job=j[0],results=[],meta={},error="job timed out",time=budget))
            except Exception as e: out.append(dict(job=j[0],results=[],meta={},error=f"job died: {e}",time=0))
        pool.terminate()
    return out
