#!/usr/bin/env python3-vt
"""run.py <property id> [--thorough]: decide one property on /repo's current tree.
exit 0: held; exit 1: a line VIOLATION property=<id> replay=<path>"""
import sys, os, json, time, tempfile, shutil, collections, re
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,HERE); os.chdir(HERE)
from vlib import prove, native
import importlib

class NativeCtx:
    def __init__(s,work,tier,seed,prop): s.work=work; s.tier=tier; s.seed=seed; s.prop=prop; s.out=[]; s.notes=[]
    def drive_par(s,src,argsets,**kw):
        """several runs of one driver side by side"""
        from concurrent.futures import ThreadPoolExecutor
        native.build(s.work,src,kw.get("defs",()),kw.get("repo_sources",()),kw.get("extra",()),opt=kw.get("opt"))
        with ThreadPoolExecutor(7) as ex: return list(ex.map(lambda a:s.drive(src,a,**kw),argsets))
    def drive(s,src,args=(),defs=(),repo_sources=(),extra=(),timeout=60,env=None,what="",opt=None,always=False,cwd=None):
        """build and run a driver; its last stdout line is JSON {evaluations,distinct,samples}; FAIL lines are failing inputs"""
        t=time.time(); exe,log=native.build(s.work,src,defs,repo_sources,extra,opt=opt)
        d=dict(driver=src,args=[str(a) for a in args],what=what,status="ok",evaluations=0,distinct=0,samples=[],fails=[])
        if exe is None: d.update(status="build-failed",log=log); s.out.append(d); return d
        rc,o,er=native.run(exe,args,timeout,env,cwd)
        fails=[l[5:] for l in o.split("\n") if l.startswith("FAIL ")]
        js=[l for l in o.split("\n") if l.startswith("{")]
        if js:
            try: j=json.loads(js[-1]); d["evaluations"]=j.get("evaluations",0); d["distinct"]=j.get("distinct",0); d["samples"]=j.get("samples",[])[:4]
            except ValueError: pass
        if fails: d.update(status="fail",fails=fails[:5])
        elif rc=="timeout":
            if "HANG-IS-FAILURE" in o: d.update(status="fail",fails=["does not terminate: "+[l for l in o.split("\n") if l.strip()][-1][:300]])
            else: d.update(status="timeout",log=o[-500:])
        elif rc!=0:
            # a crash of the code under test is a failure of the input being processed
            last=[l for l in o.split("\n") if l.startswith("CASE ")]
            d.update(status="fail",fails=[f"the program ended with status {rc} while processing: {(last[-1][5:] if last else '(no case recorded)')} {er[-300:]}"])
        d["wall_s"]=round(time.time()-t,2); s.out.append(d); return d

def known(prop):
    r=[]
    p=os.path.join(HERE,"known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r"finding: property=(\S+) match=/(.*?)/ (.*)",l.strip())
            if m and m.group(1)==prop: r.append((re.compile(m.group(2)),m.group(3)))
    return r

def main():
    prop=sys.argv[1]; tier="thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER","quick")
    if tier not in("quick","thorough"): tier="quick"
    try: seed=int(os.environ.get("VERIF_SEED","1"))
    except ValueError: seed=1
    t0=time.time(); work=tempfile.mkdtemp(prefix="verif_%s_"%prop); rc=0; lines=[]
    os.makedirs(os.path.join(HERE,"evidence"),exist_ok=True)
    try:
        mod=importlib.import_module("contracts."+prop)
        N=NativeCtx(work,tier,seed,prop)
        jobs=mod.jobs(tier)
        jr=prove.run_jobs(prop,jobs,work,tier,seed,budget=600 if tier=="quick" else 3000) if jobs else []
        obls=[dict(o,job=j["job"]) for j in jr for o in j["results"]]
        refuted=[o for o in obls if o["status"]=="refuted"]; unknown=[o for o in obls if o["status"] in("unknown","vacuous")]
        errors=[(j["job"],j["error"]) for j in jr if j["error"]]
        if hasattr(mod,"native"): mod.native(N)
        if hasattr(mod,"replay"): mod.replay(N,refuted,unknown,errors)   # always: the counterexamples of the verifier, and a bounded floating-point cross-check of the assumptions
        fails=[(d,f) for d in N.out if d["status"]=="fail" for f in d["fails"]]
        kf=known(prop); newf=[]; knownhit=set()
        for d,f in fails:
            hit=[k for k,(rx,txt) in enumerate(kf) if rx.search(f)]
            if hit: knownhit.add(hit[0])
            else: newf.append((d,f))
        for k,(rx,txt) in enumerate(kf):
            if k in knownhit: lines.append(f"KNOWN-FINDING: property={prop} {txt}")
        viol=0; rp=os.path.join(HERE,"evidence",prop+".replay.txt")
        if newf or refuted:
            viol=len(newf) or len(refuted)
            with open(rp,"w") as fh:
                fh.write(f"property {prop}\n")
                for d,f in newf: fh.write(f"failing input (driver {d['driver']} args {' '.join(d['args'])}): {f}\n")
                for o in refuted[:20]: fh.write(f"failed obligation: {o['fn']}: {o['name']} at {o['loc']} [{o['job']}]\n  goal: {o.get('goal')}\n  verifier's counterexample: {json.dumps(o.get('model'))}\n  path: {o.get('trace')}\n")
                for o in unknown[:20]: fh.write(f"undecided obligation: {o['fn']}: {o['name']} at {o['loc']} [{o['job']}] {o.get('reason')}\n")
                for j,e in errors: fh.write(f"not verified: {j}: {e}\n")
            lines.append(f"VIOLATION property={prop} replay={rp}"+("" if newf else " no-failing-input-found")); rc=1
            for o in refuted[:5]: print(f"failed obligation: {o['fn']}: {o['name']} at {o['loc']} [{o['job']}]")
            for d,f in newf[:3]: print(f"failing input: {d['driver']} {' '.join(d['args'])}: {f[:400]}")
        elif os.path.exists(rp): os.remove(rp)
        proved=[o for o in obls if o["status"]=="proved"]
        undecided_txt=[f"{o['fn']}: {o['name']} at {o['loc']} [{o['job']}]: {o.get('reason')}" for o in unknown][:30]+[f"{j}: {e}" for j,e in errors]
        by=collections.Counter(o["backend"] for o in proved)
        fns=sorted({f for j in jr for f in j["meta"].get("functions",[])}); cons=sorted({f for j in jr for f in j["meta"].get("contracts",[])})
        trusted=list(getattr(mod,"TRUSTED",[]))+prove_trusted
        cov=dict(obligations=len(obls),discharged=len(proved),checker_cmd=f"python3-vt /verif/checks/run.py {prop}",trusted_base=trusted,
            functions_under_contract=fns,contracts_used_at_call_sites=cons,discharged_by=dict(by),obligation_kinds=dict(collections.Counter(o["kind"] for o in obls)),
            jobs={j["job"]:dict(obligations=len(j["results"]),s=round(j["time"],2),error=j["error"]) for j in jr},
            solver_seconds=round(sum(o["time"] for o in obls)+sum(j["meta"].get("solver_time",0) for j in jr),2),
            loops_cut_at_invariants=sum(j["meta"].get("cut_loops",0) for j in jr),invariant_obligations=sum(j["meta"].get("inv_obls",0) for j in jr),
            undecided=undecided_txt,refuted=[f"{o['fn']}: {o['name']} at {o['loc']}" for o in refuted][:30],
            bounded_stand_ins_and_replays=[{k:v for k,v in d.items() if k!="log"} for d in N.out])
        ev=sum(d["evaluations"] for d in N.out)
        if ev:
            cov["evaluations"]=ev; cov["distinct_nontrivial"]=sum(d["distinct"] for d in N.out)
            cov["rule"]=getattr(mod,"RULE","inputs of the native drivers, counted non-trivial as each driver states"); cov["samples"]=[s for d in N.out for s in d["samples"]][:6] or ["see bounded_stand_ins_and_replays"]
        cov["explanation"]=getattr(mod,"EXPLANATION","")
        level=getattr(mod,"LEVEL","proof")
        ass=sorted(set(getattr(mod,"ASSUMPTIONS",[]))|{a for j in jr for a in j["meta"].get("assumed",[])})
        if unknown or errors: ass.append("NOT DECIDED ON THIS RUN by proof, only by the bounded native drivers: "+"; ".join(undecided_txt)[:1500])
        with open(os.path.join(HERE,"evidence",prop+".json"),"w") as fh:
            json.dump(dict(property=prop,tier=tier,seed=seed,level=level,coverage=cov,assumptions=ass,wall_s=round(time.time()-t0,2),violations=viol),fh,indent=1)
        print(f"{prop}: {len(proved)}/{len(obls)} obligations discharged in {len(jr)} jobs ({dict(by)}), {len(refuted)} refuted, {len(unknown)} undecided, {len(errors)} jobs not verified; native: "+
              (", ".join(f"{d['driver']}={d['status']}({d['evaluations']})" for d in N.out) or "not needed")+f"; {time.time()-t0:.1f}s")
        for x in undecided_txt[:8]: print("  undecided:",x[:300])
        for d in N.out:
            if d["status"] in("build-failed","timeout"): print("  native",d["driver"],d["status"],(d.get("log") or "")[-600:])
    finally:
        shutil.rmtree(work,ignore_errors=True)
    for l in lines: print(l)
    return rc
prove_trusted=["clang 18 front end and the LLVM passes always-inline, sroa, early-cse, simplifycfg (C++ to normalised IR)","vlib/sym.py: the verification-condition generator","z3 5.3.2 / cvc5"]
if __name__=="__main__": sys.exit(main())
