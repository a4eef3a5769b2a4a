#!/usr/bin/env python3-vt
"""writes /verif/MANIFEST.json from the contract modules present"""
import json,os,sys,importlib
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,HERE)
NA={}
checks=[]; na=[]
for l in open(os.path.join(HERE,"properties.jsonl")):
    d=json.loads(l); i=d["id"]
    if os.path.exists(os.path.join(HERE,"contracts",i+".py")):
        m=importlib.import_module("contracts."+i)
        checks.append(dict(property=i,quick_cmd=f"python3-vt checks/run.py {i}",thorough_cmd=f"python3-vt checks/run.py {i} --thorough",
            technique=getattr(m,"TECHNIQUE","contract-based deductive verification: contracts on the real functions, verification conditions from the LLVM IR of /repo's current sources, discharged by z3/cvc5; counterexamples replayed natively"),
            level=getattr(m,"LEVEL","proof"),level_note=(getattr(m,"NOTE","") or (m.EXPLANATION+" Assumes: "+"; ".join(m.ASSUMPTIONS)))))
    else: na.append(dict(property=i,reason=NA.get(i,"no check built yet")))
json.dump(dict(version=1,setup_cmd="true",checks=checks,not_applicable=na),open(os.path.join(HERE,"MANIFEST.json"),"w"),indent=1)
print(len(checks),"checks",[x["property"] for x in na])
