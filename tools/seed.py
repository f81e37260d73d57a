#!/usr/bin/env python3
# seed.py check ID...   confirm planted changes in a scratch copy of /repo: applies, builds, stable tests pass,
#                       demo passes without it and fails with it
# seed.py run ID...     apply to /repo, run the property's check, undo
# seed.py mk ID         (stdin: JSON {property,needs,what_it_breaks,edits:[[file,old,new]],demo:go test body,imports:[...]})
import json,os,subprocess,sys,shutil,tempfile
V="/verif"; S=V+"/seeded"
ENV=dict(os.environ,HOME="/root",GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod",TZ="Australia/Sydney",PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"])
DEMO='''#!/bin/bash
# Runs demo_test.go inside the package in the current directory (an overlay: nothing is written there).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" > "$t/o.json"
timeout 200 go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestZZDemo$' .
'''
def sh(cmd,cwd="/repo",t=900):
    r=subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    return r.returncode,r.stdout
def mk(i,d):
    p=S+"/"+i; os.makedirs(p,exist_ok=True)
    tmp=tempfile.mkdtemp(dir="/tmp")
    sh("cp -a /repo %s/w"%tmp)
    for f,old,new in d["edits"]:
        q=tmp+"/w/"+f; s=open(q).read()
        assert s.count(old)==1,(i,f,s.count(old),old)
        open(q,"w").write(s.replace(old,new))
    rc,o=sh("git diff",cwd=tmp+"/w")
    open(p+"/patch.diff","w").write(o)
    shutil.rmtree(tmp,ignore_errors=True)
    open(p+"/demo.sh","w").write(DEMO); os.chmod(p+"/demo.sh",0o755)
    imps="".join('\t"%s"\n'%x for x in ["testing"]+d.get("imports",[]))
    open(p+"/demo_test.go","w").write("package gotables\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n%s"%(imps,d["demo"].rstrip(),d.get("extra","")))
    json.dump({k:d[k] for k in("property","needs","what_it_breaks")},open(p+"/meta.json","w"),indent=1)
def check(i):
    p=S+"/"+i; tmp=tempfile.mkdtemp(dir="/tmp"); w=tmp+"/w"
    try:
        sh("cp -a /repo %s"%w)
        rc,o=sh(p+"/demo.sh",cwd=w)
        if rc!=0: return "demo fails on clean: "+o[-1500:]
        rc,o=sh("git apply %s/patch.diff"%p,cwd=w)
        if rc: return "apply: "+o
        rc,o=sh("go build .",cwd=w)
        if rc: return "build: "+o
        rc,o=sh(p+"/demo.sh",cwd=w)
        if rc==0: return "demo passes with patch"
        demo=o
        rc,o=sh("go test -json -vet=off -count=1 -timeout 10m . > %s/log; python3 /opt/vp/results.py %s/out.json gojson:%s/log"%(tmp,tmp,tmp),cwd=w)
        got=set(json.load(open(tmp+"/out.json"))["passed"]); miss=[t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in got]
        if miss: return "stable tests fail: %s"%miss[:5]
        return "ok"
    finally:
        shutil.rmtree(tmp,ignore_errors=True)
def run(i):
    p=S+"/"+i; prop=json.load(open(p+"/meta.json"))["property"]
    rc,o=sh("git apply %s/patch.diff"%p)
    if rc: return "apply: "+o
    try:
        rc,o=sh("VERIF_SEED=1 bash /verif/check.sh %s quick"%prop,cwd=V)
    finally:
        sh("git checkout -- .")
    return "rc=%d\n%s"%(rc,o[-1800:])
a=sys.argv
ids=a[2:] if len(a)>2 else sorted(os.listdir(S))
if a[1]=="mk": mk(a[2],json.load(sys.stdin))
elif a[1]=="mkfile":
    g={}; exec(open(a[2]).read(),g)
    for i,d in g["BUGS"].items():
        if len(a)>3 and i not in a[3:]: continue
        mk(i,d); print(i,check(i))
else:
    for i in ids: print(i,{"check":check,"run":run}[a[1]](i),flush=True)
