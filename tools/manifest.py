#!/usr/bin/env python3
# Source of /verif/MANIFEST.json: one entry per property that has a check binary.
import json,os
os.chdir("/verif")
props=[json.loads(l) for l in open("properties.jsonl")]
LEVEL={"C06":"model_checking","C11":"model_checking","C18":"model_checking","C26":"model_checking"}
TECH=json.load(open("tools/technique.json"))
checks=[];na=[]
for p in props:
    i=p["id"]
    if os.path.exists(f"mc/src/bin/{i.lower()}.rs"):
        t,n=TECH[i]
        checks.append({"property":i,"quick_cmd":f"./check.sh {i} --quick","thorough_cmd":f"./check.sh {i} --thorough","evidence_file":f"evidence/{i}.json","technique":t,"level":LEVEL.get(i,"exploration"),"level_note":n})
    else:
        na.append({"property":i,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none","enable":"no hooks are needed: every check drives the public API of /repo as a path dependency","source_commits":[]},"checks":checks,"not_applicable":na}
json.dump(m,open("MANIFEST.json","w"),indent=1)
try:
    import jsonschema
    jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
print(len(checks),"checks",len(na),"not claimed")
