#!/usr/bin/env python3
import json,os,sys
D=os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0,D)
from checks import CHECKS
V=os.path.join(D,"..")
props=[json.loads(l) for l in open(V+"/properties.jsonl")]
checks=[];na=[]
for p in props:
    c=CHECKS.get(p["id"])
    if not c: na.append(dict(property=p["id"],reason="no check built yet")); continue
    tech="TLA+ specification: TLC trace validation of the real code on scenarios generated from it"
    if c.get("mc"): tech="TLA+ specification: TLC model checking of %s, and trace validation of the real code on generated scenarios"%", ".join(sorted(set(m[1] if isinstance(m,tuple) else m for m in c["mc"])))
    if c.get("race"): tech+=", run concurrently under the race detector"
    checks.append(dict(property=p["id"],quick_cmd="python3 run.py "+p["id"],thorough_cmd="VERIF_TIER=thorough python3 run.py "+p["id"],
      technique=tech,level="model_checking",level_note=c.get("note","Every recorded call of the real code is compared with the specification's transition; bounded by the generated scenarios (families: %s). Trusts TLC, the BigInteger evaluation of the primitive operators in java/K256.java and the driver's recording."%", ".join(c["fams"]))))
m=dict(version=1,setup_cmd="java -version && javac -version && go version",checks=checks,not_applicable=na,
 notes="No hooks in /repo: the driver is built into the module by a Go build overlay (harness/).")
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1)
print(len(checks),"checks",len(na),"not claimed")
