#!/usr/bin/env python3-vt
"""DESIGN.md = tools/design_head.md + one section per contract module + tools/design_tail.md + tools/design_bugs.md"""
import os,sys,importlib,json
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,HERE); T=os.path.join(HERE,"tools")
rd=lambda f:open(os.path.join(T,f)).read() if os.path.exists(os.path.join(T,f)) else ""
cost=json.load(open(os.path.join(T,"costs.json"))) if os.path.exists(os.path.join(T,"costs.json")) else {}
out=[rd("design_head.md")]
for l in open(os.path.join(HERE,"properties.jsonl")):
    d=json.loads(l); i=d["id"]; p=os.path.join(HERE,"contracts",i+".py")
    out.append(f"\n### {i} {d['title']}\n")
    if not os.path.exists(p): continue
    m=importlib.import_module("contracts."+i)
    out.append(f"Level: {getattr(m,'LEVEL','proof')}. Files: "+", ".join(d["anchors"]["files"])+".\n")
    out.append("Specified and proved: "+m.EXPLANATION+"\n")
    out.append("Why tests cannot: "+d["why_tests_cant"]+"\n")
    out.append("Assumed: "+"; ".join(m.ASSUMPTIONS)+".\n")
    out.append("Proof jobs: "+", ".join(j[0] for j in m.jobs("quick"))[:600]+(f". Cost (quick, 8 cores): {cost[i]}" if i in cost else "")+".\n")
out.append(rd("design_tail.md")); out.append(rd("design_bugs.md"))
open(os.path.join(HERE,"DESIGN.md"),"w").write("\n".join(out))
