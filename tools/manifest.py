#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: every property that has goals under harness/ is claimed; the others need a reason below."""
import json, os, re, subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
have={}
for d,_,fs in os.walk(V+'/harness'):
    for f in fs:
        if f.endswith('.go'):
            for l in open(os.path.join(d,f)):
                m=re.match(r'//verif:goal property=(C\d+)',l)
                if m: have.setdefault(m[1],[]).append(os.path.relpath(os.path.join(d,f),V))
CONC={'C05','C06','C14','C15','C16','C17','C18','C19','C20','C21','C22','C23','C24','C25','C26','C27','C29','C31','C32','C33','C36','C39'}
NA={}
na_file=V+'/tools/not_applicable.json'
if os.path.exists(na_file): NA=json.load(open(na_file))
checks=[]
for p in props:
    i=p['id']
    if i not in have: continue
    note=("Bounded: the harness goals in "+", ".join(sorted(set(have[i])))+" are decided for all values of their symbolic inputs"
      +(" and all schedules, timer orders and fault points within the stated delay bound" if i in CONC else "")
      +"; bounds, functions encoded and queries are in the evidence file. Trusted: the Go SSA builder, the symbolic interpreter in engine/ with its models of runtime and standard library calls, and z3; sample paths of every goal are re-run natively against the real code.")
    checks.append({"property":i,"quick_cmd":f"./check.sh {i} quick","thorough_cmd":f"./check.sh {i} thorough",
      "evidence_file":f"evidence/{i}.json","technique":"symbolic execution of the Go SSA of the real code, assertions decided by an SMT solver (z3)",
      "level":"model_checking","level_note":note})
na=[{"property":p['id'],"reason":NA.get(p['id'],"no check built yet")} for p in props if p['id'] not in have]
m={"version":1,"setup_cmd":"./build.sh","checks":checks,"not_applicable":na,
   "notes":"gosym (engine/) executes the SSA of the code in /repo symbolically; see DESIGN.md. Known findings and fixes: known_findings.txt."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write('\n')
print(len(checks),'claimed',len(na),'not')
