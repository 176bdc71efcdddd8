# Helper to write /verif/seeded/<id>: seed(id, prop, pkg, [(file, old, new)...], demo_go_body, needs, breaks)
# Confirms everything in a scratch copy of /repo before keeping the change.
import json,os,subprocess,shutil,sys
here=os.path.dirname(os.path.abspath(__file__))
DEMO='''#!/bin/bash
# exit 0: behaves; nonzero: broken. Run with the repository as working directory.
D=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" PATH=/usr/local/go/bin:$PATH LC_ALL=C.UTF-8 GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
echo "{\\"Replace\\":{\\"$PWD/%(dir)szz_seed_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/o.json"
timeout 200 go test -overlay "$T/o.json" -vet=off -count=1 -timeout 120s -run 'TestSeedDemo$' ./%(pkg)s
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def seed(id,prop,pkg,subs,demo,needs,breaks):
    d=os.path.join(here,"..","seeded",id); d=os.path.abspath(d)
    W="/tmp/seedwork"
    sh("rm -rf /tmp/seedwork && cp -a /repo /tmp/seedwork")
    os.makedirs(d,exist_ok=True)
    open(d+"/demo_test.go","w").write(demo)
    open(d+"/demo.sh","w").write(DEMO%{"dir":"" if pkg in("",".") else pkg+"/","pkg":"" if pkg in("",".") else pkg}); os.chmod(d+"/demo.sh",0o755)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    r=sh("bash %s/demo.sh"%d,cwd=W)
    if r.returncode!=0: print(id,"DEMO FAILS ON CLEAN",r.stdout[-1500:]); return False
    for f,a,b in subs:
        p=W+"/"+f; s=open(p).read()
        if s.count(a)!=1: print(id,"pattern count",s.count(a),a); return False
        open(p,"w").write(s.replace(a,b))
    r=sh("go build ./%s && go vet ./%s"%(pkg,pkg),cwd=W)
    if r.returncode!=0: print(id,"BUILD",r.stdout[-800:]); return False
    open(d+"/patch.diff","w").write(sh("git diff",cwd=W).stdout)
    r=sh("go test $(go list -e ./... | grep -vx github.com/npillmayer/uax/uax14) 2>&1 | grep -- '^--- FAIL\\|panic\\|^FAIL'",cwd=W)
    if r.stdout.strip(): print(id,"TESTS FAIL",r.stdout[:600]); return False
    r=sh("bash %s/demo.sh"%d,cwd=W)
    if r.returncode==0: print(id,"DEMO DOES NOT FAIL"); return False
    # lines must belong to the original repository
    base=sh("git rev-list --max-parents=0 HEAD",cwd="/repo").stdout.strip()
    ok=sh("git apply --check %s/patch.diff"%d,cwd="/repo")
    if ok.returncode: print(id,"APPLY",ok.stdout); return False
    for l in sh("git diff",cwd=W).stdout.splitlines():
        if l.startswith("-") and not l.startswith("---") and l[1:].strip():
            f=[x[0] for x in subs][0]
            if not any(l[1:] in sh("git show %s:%s"%(base,x[0]),cwd="/repo").stdout.splitlines() for x in subs): print(id,"note: changed line not original:",l)
    print(id,"ok; demo output:",[x for x in r.stdout.splitlines() if x.strip()][:3])
    sh("rm -rf /tmp/seedwork")
    return True
