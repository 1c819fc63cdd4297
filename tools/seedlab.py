#!/usr/bin/env python3
"""Confirm planted changes (seeded/<id>) in private copies of /repo bound over /repo in a mount
namespace of their own, and run the checks against them.  usage: seedlab.py [-j N] [-c C01,C02|-|own] id ..."""
import json,os,subprocess,sys,shutil,concurrent.futures as cf
V="/verif"; LAB="/tmp/lab"
def ns(lab,cmd,timeout=900,verif=True):
    b=f"mount --bind {lab}/repo /repo"
    if verif: b+=f" && mount --bind {lab}/verif /verif"
    try:
        p=subprocess.run(["unshare","-Urm","bash","-c",f"{b} && cd /repo && {cmd}"],capture_output=True,text=True,timeout=timeout,errors="replace")
        return p.returncode,p.stdout+p.stderr
    except subprocess.TimeoutExpired: return 124,"timeout"
def one(sid,checks):
    lab=f"{LAB}/{sid}"; shutil.rmtree(lab,ignore_errors=True); os.makedirs(lab)
    out={"id":sid}
    try:
        subprocess.run(["cp","-a","/repo",f"{lab}/repo"],check=True)
        os.makedirs(f"{lab}/verif/evidence")
        for f in ["check.sh","tools","known_findings.txt","MANIFEST.json","properties.jsonl"]+[d for d in os.listdir(V) if d.startswith("mc")]:
            subprocess.run(["cp","-a",f"{V}/{f}",f"{lab}/verif/"],check=True)
        sd=f"{lab}/seed"; shutil.copytree(f"{V}/seeded/{sid}",sd)
        meta=json.load(open(f"{sd}/meta.json"))
        if checks!=["-demo"]:
            rc,o=ns(lab,f"bash {sd}/demo.sh",300); out["demo_clean"]=rc
            if rc: out["log"]=o[-1500:]
        rc=subprocess.run(["git","apply",f"{sd}/patch.diff"],cwd=f"{lab}/repo",capture_output=True,text=True)
        if rc.returncode: out["apply"]=rc.stderr; return out
        rc,o=ns(lab,"cargo test --workspace --all-targets --no-run --offline && bash /opt/vp/test.sh /tmp/lab/%s/out.json"%sid)
        b=json.load(open("/opt/vp/BASELINE.json")); st=b.get("stable") or b.get("tests") or b
        st=set(st if isinstance(st,list) else st.keys())
        try:
            p=set(json.load(open(f"{lab}/out.json"))["passed"]); out["missing"]=sorted(st-p)[:5]
        except Exception as e: out["missing"]=["NO RESULT "+o[-600:]]
        rc,o=ns(lab,f"bash {sd}/demo.sh",300); out["demo_bug"]=rc; out["demo_out"]=o[-300:]
        cl=[meta["property"]] if checks==["own"] else ([] if checks==["-"] else checks)
        out["checks"]={}
        for c in cl:
            rc,o=ns(lab,f"/verif/check.sh {c} --quick")
            v=[l for l in o.splitlines() if l.startswith("VIOLATION")]
            out["checks"][c]=(rc,len(v),"; ".join(x[:160] for x in v[:2]) if v else o[-200:])
    finally: shutil.rmtree(lab,ignore_errors=True)
    return out
if __name__=="__main__":
    a=sys.argv[1:]; j=4; checks=["own"]
    while a and a[0].startswith("-"):
        if a[0]=="-j": j=int(a[1]); a=a[2:]
        elif a[0]=="-c": checks=a[1].split(","); a=a[2:]
    if checks==["all"]: checks=[c["property"] for c in json.load(open(V+"/MANIFEST.json"))["checks"]]
    os.makedirs(LAB,exist_ok=True)
    bad=[]
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(one,s,checks) for s in (a or sorted(os.listdir(V+"/seeded")))]):
            o=f.result(); ok=o.get("demo_clean")==0 and o.get("demo_bug",0)!=0 and o.get("missing")==[]
            c=o.get("checks",{})
            print(("OK  " if ok else "BAD ")+o["id"], " ".join(f"{k}:{'caught' if r==1 and n else 'MISS rc=%s'%r}" for k,(r,n,_) in c.items()),flush=True)
            if not ok: print(json.dumps(o,indent=1))
            for k,(r,n,t) in c.items():
                if not(r==1 and n): print("   ",k,t)
