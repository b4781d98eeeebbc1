#!/usr/bin/env python3
"""mkseed.py ID PROP 'needs' 'breaks' : reads an edit script from stdin.
stdin: file|||old|||new (separated by lines '=====')  then a line '#####' then the demo test go code.
Creates /verif/seeded/ID, verifies: applies, builds, stable tests pass, demo 0 on clean / !=0 on patched."""
import sys,os,subprocess,json,shutil,tempfile
ID,PROP,NEEDS,BREAKS=sys.argv[1:5]
src=sys.stdin.read()
edits,demo=src.split("\n#####\n",1)
pkg="."
if demo.startswith("//binding\n"): pkg="./binding"
d="/tmp/seedwork/"+ID
shutil.rmtree(d,ignore_errors=True); os.makedirs("/tmp/seedwork",exist_ok=True)
subprocess.check_call(["cp","-a","/repo",d])
for e in edits.split("\n=====\n"):
    f,old,new=e.split("|||")
    f=f.strip(); old=old.strip("\n"); new=new.strip("\n")
    p=d+"/"+f; t=open(p).read()
    assert t.count(old)==1,(f,t.count(old),old)
    open(p,"w").write(t.replace(old,new))
patch=subprocess.check_output(["git","-C",d,"diff","--","*.go"]).decode()
out="/verif/seeded/"+ID
shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
open(out+"/patch.diff","w").write(patch)
open(out+"/demo_test.go.txt","w").write(demo)
open(out+"/demo.sh","w").write('''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken. Runs in the repository's root.
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir -p "$GOCACHE" 2>/dev/null; [ -w "$GOCACHE" ] || export GOCACHE=$T/cache
GO=$(command -v go1.27.3 || command -v go)
cp go.mod "$T/m.mod" && cp go.sum "$T/m.sum" || exit 3
printf '{"Replace":{"%s":"%s"}}' "$PWD/PKGDIRzz_demo_test.go" "$here/demo_test.go.txt" > "$T/ov.json"
export TMPDIR=$T
$GO test -mod=mod -modfile="$T/m.mod" -overlay "$T/ov.json" -vet=off -count=1 -timeout 120s -run '^TestDemo' PKG
'''.replace("PKGDIR","" if pkg=="." else "binding/").replace("PKG",pkg))
os.chmod(out+"/demo.sh",0o755)
json.dump({"property":PROP,"needs":NEEDS,"what_it_breaks":BREAKS},open(out+"/meta.json","w"),indent=1)
def demo_rc(repo):
    r=subprocess.run(["bash",out+"/demo.sh"],cwd=repo,capture_output=True,text=True)
    return r.returncode,r.stdout+r.stderr
rc,o=demo_rc("/repo"); 
if rc!=0: print("CLEAN DEMO FAILS",o[-2000:]); sys.exit(1)
rc,o=demo_rc(d)
if rc==0: print("PATCHED DEMO PASSES"); sys.exit(1)
if "FAIL" not in o or "build failed" in o: print("odd demo",o[-1500:]); sys.exit(1)
env=". /opt/vp/env.sh; cd "+d+"; $GO build ./... && $GO test -json -vet=off -count=1 ./... > /tmp/seedwork/t.json; python3 /opt/vp/results.py /tmp/seedwork/out.json gojson:/tmp/seedwork/t.json"
r=subprocess.run(["bash","-c",env],capture_output=True,text=True)
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); ok=set(json.load(open('/tmp/seedwork/out.json'))['passed'])
if b-ok: print("EXISTING TESTS FAIL",b-ok); sys.exit(1)
shutil.rmtree(d)
print("seed",ID,"ok")
