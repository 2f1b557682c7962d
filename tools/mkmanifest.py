"""MANIFEST.json from the registry and properties.jsonl."""
import json,sys,os
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0]=[H+"/specs",H+"/lv"]
import registry
props=[json.loads(l) for l in open(H+"/properties.jsonl")]
ch=[];na=[]
for p in props:
    i=p["id"]
    if i in registry.PROPS:
        c=registry.PROPS[i]
        ch.append({"property":i,"quick_cmd":"python3-vt verify.py %s"%i,"thorough_cmd":"VERIF_TIER=thorough python3-vt verify.py %s"%i,
            "technique":c.get("technique","contract-based deductive verification: VCs from LLVM IR of the real code, discharged by z3"),
            "level":c.get("level","proof"),"level_note":c.get("level_note") or registry.NOTE+(" "+c["note"] if c.get("note") else "")})
    else: na.append({"property":i,"reason":registry.NA.get(i,"not under contract yet")})
json.dump({"version":1,"setup_cmd":"python3-vt tools/setup.py","checks":ch,"not_applicable":na,
  "notes":"Contracts in specs/, verifier in lv/, executable contracts (replay) in falsify/. See DESIGN.md."},open(H+"/MANIFEST.json","w"),indent=1)
