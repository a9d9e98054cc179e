#!/usr/bin/env python3
"""mk.py ID PROPERTY PKG   reads stdin JSON {file, old, new | edits:[[file,old,new]..], needs, breaks, demo, count?}
Creates seeded/ID from an edit of a scratch copy of /repo and verifies it."""
import sys, os, json, subprocess, shutil, tempfile
V="/verif"
def sh(c, cwd, **k): return subprocess.run(c, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    sid, prop, pkg, spec = sys.argv[1:5]
    d=V+"/seeded/"+sid
    ns={"V":V}
    exec(open(spec).read(), ns)
    w=tempfile.mkdtemp(prefix="seed-")
    try:
        sh("cp -a /repo %s/repo"%w, "/")
        r=w+"/repo"
        for f,old,new in ns["edits"]:
            p=r+"/"+f; t=open(p).read()
            if t.count(old)!=1: print("edit matches",t.count(old),"times in",f, repr(old)); return 1
            open(p,"w").write(t.replace(old,new))
        sh("gofmt -l $(git diff --name-only)", r)
        diff=sh("git diff", r).stdout
        os.makedirs(d, exist_ok=True)
        open(d+"/patch.diff","w").write(diff)
        if "demo" in ns: open(d+"/demo_test.go","w").write(ns["demo"])
        open(d+"/demo.sh","w").write(open(V+"/tools/seed/demo_template.sh").read().replace("@PKG@",pkg))
        os.chmod(d+"/demo.sh",0o755)
        json.dump(dict(property=prop,needs=ns["needs"],what_it_breaks=ns["breaks"]),open(d+"/meta.json","w"),indent=1)
        # verify
        a=sh("bash %s/demo.sh"%d, "/repo"); b=sh("bash %s/demo.sh"%d, r)
        print("demo unchanged rc",a.returncode,"patched rc",b.returncode)
        if a.returncode: print(a.stdout[-3000:])
        if b.returncode==2 or b.returncode==0: print(b.stdout[-3000:])
        # build + stable tests on the copy
        env="export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS= ; sed -E 's#^([[:space:]]*)(use[[:space:]]+)?(\\./)?src/#\\1\\2%s/src/#' go.work > %s/go.work; cat /opt/vp/gowork/base.sum go.work.sum | sort -u > %s/go.work.sum; export GOWORK=%s/go.work; "%(r,w,w,w)
        c=sh(env+"for m in adminserver apiserver metaserver objectserver common; do (cd src/$m && go build -o /dev/null ./... ) || exit 3; done; go test ./src/common/... 2>&1 | grep -v 'no test files'", r)
        bl=c.stdout
        fails=[l for l in bl.splitlines() if l.startswith("--- FAIL")]
        print("build/test rc",c.returncode,"fails",fails)
        if c.returncode==3: print(bl[-3000:])
        st=json.load(open("/opt/vp/BASELINE.json"))["stable"]
        bad=[f for f in fails if any(f.split()[2] in s for s in st)]
        if bad: print("STABLE TESTS FAIL",bad)
        if "-c" in sys.argv:
            e=dict(os.environ,VERIF_REPO=r)
            k=subprocess.run([V+"/bin/check",prop,"quick"],env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,cwd=V)
            print("check rc",k.returncode); print("\n".join(k.stdout.splitlines()[-12:])[:2500])
    finally:
        shutil.rmtree(w)
sys.exit(main())
