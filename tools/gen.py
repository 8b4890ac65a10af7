#!/usr/bin/env python3
import json, sys, os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0]=[V+"/tools",V+"/harness"]
import propdefs, props
out=open(V+"/properties.jsonl","w"); checks=[]; na=[]
for p in propdefs.PROPS:
    a={"files":p["files"],"mechanism":[{"name":n,"where":w} for n,w in p["mech"]]}
    if p["state"]: a["state"]=p["state"]
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    out.write(json.dumps(dict(id=p["id"],title=p["title"],statement=p["st"] if "st" in p else p["statement"],quantifier={"over":p["over"],"text":p["q"]},why_tests_cant=p["why"],anchors=a))+"\n")
    if p["id"] in props.PROPS:
        n=props.PROPS[p["id"]].get("note","Exhaustive within the bounds written to the evidence file; executions run on the real code, compared with an independent reference model.")
        checks.append(dict(property=p["id"],quick_cmd="python3 run.py %s quick"%p["id"],thorough_cmd="python3 run.py %s thorough"%p["id"],
            technique=props.PROPS[p["id"]].get("technique","explicit exhaustive exploration of bounded executions of the real code, lock-step with a reference model"),level="model_checking",level_note=n))
    else: na.append(dict(property=p["id"],reason=propdefs.NA.get(p["id"],"no check built yet") if hasattr(propdefs,"NA") else "no check built yet"))
m=dict(version=1,setup_cmd="true",checks=checks,not_applicable=na)
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); open(V+"/MANIFEST.json","a").write("\n")
