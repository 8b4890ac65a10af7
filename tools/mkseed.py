#!/usr/bin/env python3
"""Plant a bug: mkseed.py SPEC.py  (SPEC defines id, prop, needs, breaks, edits=[(file,old,new)], args=[...], [setup], [democ], [env])
Creates seeded/<id> after confirming: patch applies, builds, stable tests pass, demo 0 on clean tree and non-zero with it."""
import sys, os, json, subprocess, shutil, tempfile, shlex
V="/verif"; spec={}; exec(open(sys.argv[1]).read(),spec)
sid=spec["id"]; out=f"{V}/seeded/{sid}"; S=f"{V}/tools/seed"
tmp=tempfile.mkdtemp(prefix="seed_"); w=tmp+"/repo"
def sh(c,cwd=None,ok=True,t=600):
    r=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t)
    o=r.stdout.decode(errors="replace")
    if ok and r.returncode: print(c,o[-3000:]); cleanup(); sys.exit(1)
    return r.returncode,o
def cleanup(): shutil.rmtree(tmp,ignore_errors=True)
sh(f"cp -a /repo {w}")
sh("git checkout -q -- . && git clean -fdq",w)
for f,a,b in spec["edits"]:
    p=f"{w}/source/{f}"; s=open(p).read()
    if s.count(a)!=1: print("edit matches",s.count(a),f,a); cleanup(); sys.exit(1)
    open(p,"w").write(s.replace(a,b))
_,d=sh("git diff",w)
# changed lines must be original
base=sh("git rev-list --max-parents=0 HEAD",w)[1].strip()
for l in d.splitlines():
    if l.startswith("-") and not l.startswith("---") and l[1:].strip():
        t=l[1:]
        if sh("git grep -qF -- "+shlex.quote(t.strip())+f" {base} -- source util",w,ok=False)[0]: print("NOT ORIGINAL:",t)
os.makedirs(out,exist_ok=True)
open(out+"/patch.diff","w").write(d)
if spec.get("sh"):
    for n,t in spec.get("files",{}).items(): open(out+"/"+n,"w").write(t)
    open(out+"/demo.sh","w").write(spec["sh"])
    sh("git stash -q",w)
    rc,o=sh(f"bash {out}/demo.sh",w,ok=False)
    if rc: print("demo fails on clean tree",rc,o); cleanup(); sys.exit(1)
else:
    for f in ("build.sh","quiet.h"): shutil.copy(f"{S}/{f}",out)
    if spec.get("display"):
        b=open(out+"/build.sh").read().replace("grep -v graphics/ |","grep -v graphics/nds |").replace("-DPC ","-DPC -DDEMO_DISPLAY -I$D ")
        open(out+"/build.sh","w").write(b); shutil.copy(V+"/harness/soft.h",out)
    c=spec.get("democ") or open(S+"/demo.c").read()
    if spec.get("setup"): c="#define DEMO_SETUP "+spec["setup"].replace("\n"," ")+"\n"+c
    open(out+"/demo.c","w").write(c)
    args=" ".join(shlex.quote(a) for a in spec["args"])
    pre="#!/bin/bash\nD=$(cd \"$(dirname \"$0\")\" && pwd); W=$(mktemp -d); trap 'rm -rf \"$W\"' EXIT\nbash \"$D/build.sh\" \"$D\" \"$W/demo\" || exit 3\nR=$PWD; cd \"$W\"; mkdir programs resources\n"+spec.get("pre","")
    runl=f"ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo {args} > out.txt 2> err.txt || {{ tail -5 err.txt; exit 1; }}\n"
    open(out+"/demo.sh","w").write(pre+runl)
    # expected output from the clean tree
    sh("git stash -q",w)
    open(out+"/gen.sh","w").write(pre.replace("out.txt","x")+runl+"cat out.txt\n")
    rc,o=sh(f"bash {out}/gen.sh",w,ok=False); os.unlink(out+"/gen.sh")
    if rc: print("demo fails on clean tree",rc,o); cleanup(); sys.exit(1)
    exp=o; print("clean output:\n"+exp)
    open(out+"/expected.txt","w").write(exp)
    open(out+"/demo.sh","w").write(pre+runl+"diff out.txt \"$D/expected.txt\"\n")
sh("git stash pop -q",w)
json.dump({"property":spec["prop"],"needs":spec["needs"],"what_it_breaks":spec["breaks"]},open(out+"/meta.json","w"),indent=1)
rc,o=sh(f"bash {out}/demo.sh",w,ok=False); print("patched demo rc",rc); print(o[-800:])
if not rc: print("DEMO DOES NOT FAIL"); 
# the tests, in /repo's place
sh(f"git -C /repo apply {out}/patch.diff")
try:
    rb,ob=sh("bash /opt/vp/build.sh","/repo",ok=False)
    rt,ot=sh("timeout 60 bash /opt/vp/test.sh /tmp/seed_t.json","/repo",ok=False)
    r=json.load(open("/tmp/seed_t.json")); want=json.load(open("/opt/vp/BASELINE.json"))
    bad=[x for x in r["failed"] if x!="test_int_resources"]
    print("build",rb,"failed tests:",bad, "passed",len(r["passed"]))
    if rb: print(ob[-1500:])
    rc2=0
    if "-n" not in sys.argv:
        rc2,o2=sh(f"python3 {V}/run.py {spec['prop']} quick","/verif",ok=False,t=900)
        print("CHECK rc",rc2); print("\n".join(o2.splitlines()[:6])[:600])
finally:
    sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh","/repo",ok=False)
if not rc or rb or bad:
    print("REJECTED"); shutil.rmtree(out)
cleanup()
