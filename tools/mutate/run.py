#!/usr/bin/env python3
"""Mutation testing of the checks: makes every mutant of /repo's sources in scratch copies, drops those that do not compile or
fail the repository's tests, and runs every check on the rest. Usage: run.py OUT.jsonl [JOBS [REGEX]]. Resumes OUT.jsonl."""
import json,os,re,subprocess,sys,threading,queue,shutil,tempfile
here=os.path.dirname(os.path.abspath(__file__)); V=os.path.dirname(os.path.dirname(here))
out=sys.argv[1]; jobs=int(sys.argv[2]) if len(sys.argv)>2 else 6; rx=re.compile(sys.argv[3] if len(sys.argv)>3 else "")
runs=os.environ.get("RUNS","60"); props=os.environ.get("PROPS","").split() or ["C%02d"%i for i in range(1,22)]+["C23","C24"]
E=dict(os.environ,HOME="/root",PATH="/opt/veriftools/go1.27.3/bin:/usr/bin:/bin",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",GOMAXPROCS="2")
P="/repo/protocol"
files=[f for f in subprocess.run("find . -name '*.go' ! -name '*_test.go' ! -path '*generated*' ! -path '*tools*' ! -name '*_string.go'",cwd=P,shell=True,capture_output=True,text=True).stdout.split() if rx.search(f)]
tmp=tempfile.mkdtemp(prefix="/tmp/mutate.")
subprocess.run(["go","build","-o",tmp+"/mutate",here+"/main.go"],env=dict(E,GOFLAGS=""),check=True)
lines=subprocess.run([tmp+"/mutate"]+sorted(files),cwd=P,capture_output=True,text=True); shutil.rmtree(tmp)
if lines.returncode: sys.exit(lines.stderr)
muts=[json.loads(l) for l in lines.stdout.splitlines()]
if os.environ.get("SHUFFLE"): # in random order, without the error branches
    import random; muts=[m for m in muts if "err != nil" not in m["from"]]; random.Random(int(os.environ["SHUFFLE"])).shuffle(muts)
done=set()
if os.path.exists(out):
    for l in open(out): d=json.loads(l); done.add((d["file"],d["start"],d["end"],d["to"]))
q=queue.Queue()
for m in muts:
    if (m["file"],m["start"],m["end"],m["to"]) not in done: q.put(m)
print(len(muts),"mutants,",q.qsize(),"to do",flush=True)
lock=threading.Lock()
def sh(cmd,cwd,t=600):
    try: r=subprocess.run(cmd,cwd=cwd,shell=True,capture_output=True,text=True,env=E,timeout=t); return r.returncode,r.stdout+r.stderr
    except subprocess.TimeoutExpired: return 99,"timeout"
def work():
    T=tempfile.mkdtemp(prefix="/tmp/mut."); shutil.copytree("/repo",T+"/repo"); os.mkdir(T+"/.build"); shutil.copy(V+"/KNOWN_FINDINGS",T); R=T+"/repo/protocol"
    while True:
        try: m=q.get_nowait()
        except queue.Empty: break
        p=os.path.join(R,m["file"]); s=open(p,"rb").read()
        open(p,"wb").write(s[:m["start"]]+m["to"].encode()+s[m["end"]:])
        try:
            rc,o=sh("go build ./...",R)
            if rc: m["res"]="nobuild"; continue
            rc,o=sh("go test -vet=off ./... -timeout 60s",R,120)
            if rc: m["res"]="tests"; continue
            rc,o=sh(f"VERIF_REPO={T}/repo {V}/build.sh {T}/sim",V)
            if rc: m["res"]="simbuild"; m["out"]=o[-300:]; continue
            m["res"]="survived"; oth=[]
            for pr in props:
                rc,o=sh(f"VERIF_DIR={T} {T}/sim check -prop {pr} -runs {runs} -jobs 1",T,400)
                if rc==1: m["res"]="caught"; m["by"]=pr; m["out"]=o[:200]; break
                if rc: m["res"]="trouble"; m["by"]=pr; m["out"]=o[:400]; break
                x=re.findall(r"other.*",o)
                if x: oth+=x[:1]
            if oth: m["other"]=oth[:3]
        finally:
            open(p,"wb").write(s)
            with lock: open(out,"a").write(json.dumps(m)+"\n")
    shutil.rmtree(T)
ts=[threading.Thread(target=work) for _ in range(jobs)]
[t.start() for t in ts]; [t.join() for t in ts]
