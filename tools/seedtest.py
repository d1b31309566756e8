#!/usr/bin/env python3
"""development aid: for each seeded bug: demo on the clean tree, then patched: build, stable tests, demo, check.  usage: seedtest.py [--notests] [id...]"""
import sys, os, json, subprocess, time
V="/verif"; R="/repo"
args=[a for a in sys.argv[1:] if not a.startswith("--")]; notests="--notests" in sys.argv
ids=args or sorted(os.listdir(f"{V}/seeded"))
env=dict(os.environ, DEMO_TARGET_DIR="/tmp/demotgt"); stable=set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
def sh(c,cwd=R,t=900):
    r=subprocess.run(c,cwd=cwd,shell=True,capture_output=True,text=True,timeout=t,env=env); return r.returncode,r.stdout+r.stderr
assert not sh("git status --porcelain -uno")[1].strip()
for i in ids:
    d=f"{V}/seeded/{i}"; m=json.load(open(d+"/meta.json")); out=[]
    rc,o=sh(f"bash {d}/demo.sh"); out.append("clean-demo:"+("ok" if rc==0 else "BAD "+o[-600:]))
    try:
        rc,o=sh(f"git apply {d}/patch.diff"); assert rc==0,(i,o)
        rc,o=sh(f"bash {d}/demo.sh"); out.append("patched-demo:"+("fails" if rc!=0 else "BAD(passes)")); 
        if rc!=0 and "panicked" not in o: out.append("NOPANIC "+o[-600:])
        if not notests:
            rc,o=sh("bash /opt/vp/build.sh"); out.append("build:"+("ok" if rc==0 else "BAD "+o[-400:]))
            sh("bash /opt/vp/test.sh /tmp/seed_t.json"); t=json.load(open("/tmp/seed_t.json")); miss=stable-set(t["passed"]); out.append("tests:"+("ok" if not miss else "BAD "+str(sorted(miss)[:4])))
        t0=time.time(); rc,o=sh(f"python3 check.py {m['property']}",cwd=V); v=[l for l in o.split("\n") if l.startswith("VIOLATION")]
        out.append(f"check {m['property']}: rc={rc} {v[:1]} {time.time()-t0:.0f}s")
    finally:
        sh("git checkout -- .")
    print(i,"|"," | ".join(out),flush=True)
