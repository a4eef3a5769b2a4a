"""Native drivers: programs that include /repo's current sources and compare them with an independent oracle.
Used to replay the verifier's counterexamples and as (labelled) bounded stand-ins."""
import os, subprocess, json, hashlib, signal, shutil, tempfile
from .prove import REPO, HERE, GI, HI, GEN
FLAGS=["-std=c++17","-O1","-g0","-w","-fopenmp","-ffp-contract=off"]
def build(work,src,defs=(),repo_sources=(),extra=(),name=None,opt=None):
    """compile /verif/replay/<src> against /repo; returns (exe or None, log)"""
    exe=os.path.join(work,(name or os.path.splitext(os.path.basename(src))[0])+hashlib.sha1(repr((defs,repo_sources,extra)).encode()).hexdigest()[:8])
    if os.path.exists(exe): return exe,""
    fl=[f for f in FLAGS if not(opt and f=="-O1")]+([opt] if opt else [])
    p=os.path.join(HERE,"replay",src); 
    cmd=["g++"]+fl+["-I"+GI,"-I"+HI,"-I"+GEN,"-I"+os.path.join(HERE,"replay")]+["-D"+d for d in defs]+list(extra)
    objs=[]; procs=[]
    for i,s in enumerate([p]+[os.path.join(REPO,x) for x in repo_sources]):
        o=exe+".%d.o"%i; objs.append(o); procs.append((s,subprocess.Popen(cmd+["-c",s,"-o",o],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)))
    log=""
    ok=True
    for s,q in procs:
        out,_=q.communicate()
        if q.returncode: ok=False; log+=f"{s}:\n{out[-2000:]}\n"
    if not ok: return None,log
    r=subprocess.run(["g++"]+fl+list(extra)+objs+["-o",exe,"-lpthread"],capture_output=True,text=True)
    if r.returncode: return None,r.stdout[-500:]+r.stderr[-2000:]
    return exe,""
def run(exe,args=(),timeout=60,env=None,cwd=None):
    """-> (rc or 'timeout', stdout, stderr)"""
    e=dict(os.environ); e.setdefault('OMP_WAIT_POLICY','passive'); e.update(env or {})
    tmp=None
    if cwd is None: cwd=tmp=tempfile.mkdtemp(prefix="vrun")
    try:
        p=subprocess.Popen([exe]+[str(a) for a in args],stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,errors="replace",env=e,cwd=cwd,start_new_session=True)
        try: o,er=p.communicate(timeout=timeout); return p.returncode,o,er
        except subprocess.TimeoutExpired:
            os.killpg(p.pid,signal.SIGKILL); o,er=p.communicate(); return "timeout",o or "",er or ""
    finally:
        if tmp: shutil.rmtree(tmp,ignore_errors=True)
