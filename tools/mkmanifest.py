#!/usr/bin/env python3
"""Source of MANIFEST.json (run: python3 tools/mkmanifest.py)."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(os.path.join(root,'properties.jsonl'))]
have={f[:-3].upper() for f in os.listdir(os.path.join(root,'harness/props'))}
SHARE={'S02':'S01','S03':'S01'}
HOSTILE="crash, hang and contract monitor in worker processes over mutated and generated input"
MODEL="online monitor comparing the real code with an independent reference model"
T={
 'S01':HOSTILE,'S02':HOSTILE,'S03':HOSTILE,'R02':"Go race/bounds instrumented run: "+HOSTILE,
 'S04':"round-trip and fixpoint monitor over generated messages",
 'S06':"metamorphic monitor: two spellings of one message are parsed and compared",
 'S11':"differential monitor: used parser against a fresh one over parse histories",
 'S12':"Go race detector and comparison with a sequential run",
 'R07':"Go race detector and comparison with a sequential run",
 'R06':"reference sequence monitor, and race detector with an offline exactly-once checker of concurrent draws",
 'S29':"Go race detector, and comparison of all that is observable before and after every read",
 'S33':"differential monitor: every parser constructor against the factory's",
 'S34':"online monitor: every getter against a model of the fields after every edit",
 'S35':"Go race detector and monitor of the files' contents after every message",
 'S36':"online monitor: every production run at a position of a text against the RFC 3261 section 25 rule as a regular expression",
 'S37':"online monitor against independent implementations of the helpers",
 'S38':"online rejection monitor over generated malformed header lines",
 'S15':"event-log monitor of the error handler's calls",
}
N="Held on every execution explored in the run; sound for what was executed, no claim about inputs that were not generated. Trusts the Go toolchain and runtime and the harness's own models."
checks=[]; na=[]
for p in props:
    i=p['id']
    if SHARE.get(i,i) in have:
        checks.append(dict(property=i,quick_cmd=f"bash check.sh {i} quick",thorough_cmd=f"bash check.sh {i} thorough",
            technique=T.get(i,MODEL),level="exploration",level_note=N))
    else:
        na.append(dict(property=i,reason="monitor not built yet"))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
 notes="No hooks in /repo: every monitor observes the public API, and checks build the harness module against /repo's working tree (replace directive). known_findings.json lists known findings and fixed defects.")
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1); open(os.path.join(root,'MANIFEST.json'),'a').write("\n")
print(len(checks),[x['property'] for x in na])
