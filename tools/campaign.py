#!/usr/bin/env python3
"""Mutation campaign (development tool): campaign.py MUTANTS OUT [WORKERS] [SCALE].

MUTANTS: lines of 'mutate list' with paths relative to /repo, already sampled.
For every mutant: build the monitors with it (through an overlay, /repo is not
touched), run the checks until one reports, run the repository's tests for
those that none reports.  OUT gets one JSON line per mutant."""
import json, os, shutil, subprocess, sys, threading, queue, random
muts=[l.rstrip("\n").split("\t") for l in open(sys.argv[1])]
out=open(sys.argv[2],"a"); W=int(sys.argv[3]) if len(sys.argv)>3 else 6
SCALE=sys.argv[4] if len(sys.argv)>4 else "0.1"
HARN=os.environ.get("HARN","/verif/harness")
ONLY=os.environ.get("ONLY")
FIRST=dict(core="S19 S16 S05 S28 S20 S06 S17 S18 S08".split(),
  rtp=["R01","R07","R08","R03","R04","R05","R02","R06"],
  address="S17 S16 S18 S28 S20 S14".split(), header="S26 S05 S14 S20 S25 S10 S28 S07 S09 S27".split(),
  message="S10 S09 S21 S22 S23 S24 S27 S07 S04 S08 S15 S13".split(), parser="S05 S16 S18 S19 S13 S15 S08 S07 S06 S25 S11".split(),
  sip=["S30"])
ALL=[f"S{i:02d}" for i in range(1,29) if i!=12]
for x in [f"S{i}" for i in range(29,40) if i not in (29,35)]:
    if os.path.exists(f"/verif/harness/props/{x.lower()}.go"): ALL.append(x)
BASE="/dev/shm/mut/base"
env0=dict(os.environ,GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOWORK="off",GOSUMDB="off",GOMAXPROCS="2",VMON_SCALE=SCALE,VMON_SHARDS="1")
SKIP="^(TestHostNameParser|TestTorture2|TestTorture4)$"
def order(f):
    p=f.split("/"); d=p[1] if p[0]=="sip" and len(p)>2 else p[0]
    first=FIRST.get(d,[])
    if ONLY: return ONLY.split()
    if d=="rtp": return first
    return [x for x in first if x in ALL or x[0]=="R"]+[x for x in ALL if x not in first]
def prep():
    e=dict(env0,GOCACHE=BASE)
    os.makedirs(BASE,exist_ok=True)
    subprocess.run(["go","build","-o","/dev/null","./cmd/vmon"],cwd=HARN,env=e,check=True)
    subprocess.run(["go","test","-vet=off","-run","XXX","./..."],cwd="/repo",env=e,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL)
lock=threading.Lock(); q=queue.Queue()
for m in muts: q.put(m)
def worker(n):
    d=f"/dev/shm/mut/w{n}"; k=0
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        if k%40==0:
            shutil.rmtree(d,ignore_errors=True); os.makedirs(d+"/root"); os.makedirs(d+"/tmp")
            shutil.copytree(BASE,d+"/cache"); shutil.copy("/verif/known_findings.json",d+"/root/")
        k+=1
        e=dict(env0,GOCACHE=d+"/cache",TMPDIR=d+"/tmp")
        f,i=m[0],m[1]
        r=dict(file=f,index=int(i),line=int(m[2]),fn=m[3],what=m[4])
        try:
            subprocess.run(["/tmp/mutate","write","/repo/"+f,i,d+"/m.go"],check=True)
            json.dump({"Replace":{"/repo/"+f:d+"/m.go"}},open(d+"/ov.json","w"))
            b=subprocess.run(["go","build","-overlay",d+"/ov.json","-o",d+"/vmon","./cmd/vmon"],cwd=HARN,env=e,capture_output=True,text=True,timeout=300)
            if b.returncode: r["result"]="nobuild"
            else:
                r["result"]="survived"
                for p in order(f):
                    try: c=subprocess.run([d+"/vmon","run",d+"/root",p,"quick","1"],env=e,capture_output=True,text=True,timeout=400)
                    except subprocess.TimeoutExpired: r["result"]="timeout:"+p; break
                    if c.returncode==1: r["result"]="caught:"+p; break
                    if c.returncode!=0: r["result"]=f"odd:{p}:{c.returncode}:"+(c.stderr or c.stdout)[:200]; break
                if not r["result"].startswith("caught"):
                    t=subprocess.run(["go","test","-vet=off","-count=1","-timeout","60s","-skip",SKIP,"-overlay",d+"/ov.json","./core/...","./sip/...","./rtp/..."],cwd="/repo",env=e,capture_output=True,text=True,timeout=400)
                    if t.returncode: r["tests"]="fail"
        except Exception as x:
            r["result"]="error:"+repr(x)[:200]
        with lock:
            out.write(json.dumps(r)+"\n"); out.flush()
    shutil.rmtree(d,ignore_errors=True)
prep()
ts=[threading.Thread(target=worker,args=(n,)) for n in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
