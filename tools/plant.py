#!/usr/bin/env python3
"""plant.py ID... [--checks C01,C02|own|all] [--nodemo]: validate planted bugs in private copies of /repo (mount namespace) and run checks on them"""
import sys,os,subprocess,json,shutil,tempfile,concurrent.futures as cf
ids=[a for a in sys.argv[1:] if not a.startswith("-")]; opt={a.split("=")[0]:(a.split("=")+[""])[1] for a in sys.argv[1:] if a.startswith("--")}
V=os.environ.get("VSRC","/verif")
if not ids: ids=sorted(os.listdir(V+"/seeded"))
def one(i):
    T=tempfile.mkdtemp(prefix="pl_",dir="/tmp"); meta=json.load(open(f"{V}/seeded/{i}/meta.json")); out=[]
    ch=opt.get("--checks","own"); checks=[meta["property"]] if ch=="own" else ([x["property"] for x in json.load(open(V+"/MANIFEST.json"))["checks"]] if ch=="all" else ch.split(","))
    subprocess.run(["cp","-a","/repo",T+"/repo"]); subprocess.run(["cp","-a",V,T+"/verif"]); subprocess.run(["cp","-a",V+"/seeded/"+i,T+"/demo"])
    sc="mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /repo && "%(T,T)
    def ns(c,to=900):
        try: r=subprocess.run(["unshare","-Urm","bash","-c",sc+c],capture_output=True,text=True,timeout=to); return r.returncode,r.stdout+r.stderr
        except subprocess.TimeoutExpired: return "timeout",""
    try:
        if "--nodemo" not in opt:
            rc,o=ns("bash /opt/vp/build.sh >/dev/null 2>&1; bash %s/demo/demo.sh"%T); out.append(f"demo on clean: {rc}"+("" if rc==0 else " BAD "+o[-300:]))
        rc,o=ns("git apply %s/demo/patch.diff"%T)
        if rc: out.append("patch does not apply "+o)
        if "--nodemo" not in opt:
            rc,o=ns("bash /opt/vp/build.sh 2>&1 | tail -30; exit ${PIPESTATUS[0]}"); 
            if rc: out.append("BUILD FAILS "+o[-1500:])
            rc,o=ns("bash /opt/vp/test.sh %s/t.json"%T); j=json.load(open(T+"/t.json")); base=json.load(open("/opt/vp/BASELINE.json"))["stable"]
            miss=[b for b in base if b not in j["passed"]]; out.append("tests pass" if not miss else "TESTS FAIL "+str(miss[:4]))
            rc,o=ns("bash %s/demo/demo.sh"%T); out.append(f"demo on patched: {rc}"+("" if rc not in(0,) else " BAD")+" "+o.strip()[-160:])
        for c in checks:
            rc,o=ns(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3-vt checks/run.py {c}")
            v=[l for l in o.split("\n") if l.startswith("VIOLATION")]; s=[l for l in o.split("\n") if l.startswith(c+":")]; f=[l[:260] for l in o.split("\n") if l.startswith(("failing input","failed obl","  undecided","  native"))]
            out.append(f"{c} -> exit {rc} "+("CAUGHT" if rc==1 and v else "missed")+(" (no input)" if v and "no-failing" in v[0] else "")+(" | "+" | ".join(s+f[:4]) if ch!="all" or rc else ""))
            if rc not in(0,1): out.append("   !!! "+o[-1500:])
    finally: shutil.rmtree(T,ignore_errors=True)
    return i,out
with cf.ThreadPoolExecutor(int(opt.get("--j","3"))) as ex:
    for i,o in ex.map(one,ids): print("==",i); print("\n".join("   "+x for x in o),flush=True)
