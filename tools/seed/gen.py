#!/usr/bin/env python3
"""Plants the bugs of bugs.py one by one in a scratch copy of /repo, confirms each (builds, stable tests pass, the demo
fails with it and passes without) and writes /verif/seeded/<id>/. Arguments: ids to do (default: all not yet there)."""
import json,os,shutil,subprocess,sys,tempfile
here=os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0,here)
from bugs import BUGS
out=os.path.join(here,"..","..","seeded")
prelude=open(os.path.join(here,"prelude.go.txt")).read()
demosh=open(os.path.join(here,"demo.sh.txt")).read()
ids=sys.argv[1:] or [b["id"] for b in BUGS if not os.path.exists(os.path.join(out,b["id"]))]
def run(cmd,cwd,**k): return subprocess.run(cmd,cwd=cwd,shell=True,capture_output=True,text=True,**k)
base=set(run("git ls-tree -r --name-only 30af31d","/repo").stdout.split())
for b in BUGS:
    if b["id"] not in ids: continue
    T=tempfile.mkdtemp(prefix="/tmp/seed.")
    try:
        R=T+"/repo"; run(f"cp -a /repo {R}","/")
        ok=True
        for path,a,c in b["edits"]:
            p=f"{R}/protocol/{path}"; s=open(p).read()
            if s.count(a)!=1: print(b["id"],"EDIT does not match",path,s.count(a)); ok=False; break
            open(p,"w").write(s.replace(a,c))
        if not ok: continue
        diff=run("git diff",R).stdout
        d=os.path.join(out,b["id"]); os.makedirs(d,exist_ok=True)
        open(d+"/patch.diff","w").write(diff)
        open(d+"/demo_test.go","w").write(prelude+"\nfunc TestDemo(t *testing.T) {\n"+b["demo"]+"\n}\n"+b.get("decls",""))
        open(d+"/demo.sh","w").write(demosh); os.chmod(d+"/demo.sh",0o755)
        json.dump({"property":b["property"],"needs":b["needs"],"what_it_breaks":b["breaks"]},open(d+"/meta.json","w"),indent=1)
        env="export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/bin:/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod; "
        r=run(env+"go build ./... && go vet ./session >/dev/null 2>&1; go test ./... 2>&1",R+"/protocol")
        bad=[l for l in r.stdout.splitlines() if l.startswith(("FAIL","---","panic"))]
        if r.returncode: print(b["id"],"TESTS FAIL",bad[:5],r.stderr[-400:]); shutil.rmtree(d); continue
        r1=run(f"bash {d}/demo.sh",R); r0=run(f"bash {d}/demo.sh","/repo")
        if r0.returncode!=0: print(b["id"],"DEMO FAILS ON CLEAN",r0.stdout[-600:],r0.stderr[-600:]); shutil.rmtree(d); continue
        if r1.returncode==0: print(b["id"],"DEMO PASSES WITH BUG"); shutil.rmtree(d); continue
        msg=[l for l in r1.stdout.splitlines() if "demo_test" in l or "panic" in l]
        print(b["id"],"ok:",(msg or [r1.stdout[-300:]])[0][:160])
    finally: shutil.rmtree(T)
