#!/usr/bin/env python3
"""Developer tool: record a replay file as a known finding (never run by a check).
usage: known.py REPLAY 'what fails'"""
import json,sys,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f=os.path.join(root,'known_findings.json')
k=json.load(open(f)) if os.path.exists(f) else {"findings":[]}
r=json.load(open(sys.argv[1]))
e={"property":r["property"],"status":"known","kind":r["kind"],"data":r["data"],"sig":r["sig"],"what":sys.argv[2]}
if not any(all(x.get(i)==e[i] for i in("property","kind","data","sig")) for x in k["findings"]):
    k["findings"].append(e)
json.dump(k,open(f,'w'),indent=1,ensure_ascii=False); open(f,'a').write("\n")
