"""mk.py FILE.py [ids...]: makes seeded directories from definitions SEEDS in FILE.py and confirms them."""
import sys, os, shutil, subprocess, json, importlib.util
SC="/tmp/sc/repo"
OUT="/verif/seeded"
DEMO='''#!/bin/bash
# Run in the repository's root: fails when the property is broken.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export PATH=/usr/local/go/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=mod CGO_ENABLED=1
cp go.mod go.sum "$work"/
go mod edit -replace=github.com/amarin/logging="$here/stubs/logging" -replace=github.com/amarin/libxml="$here/stubs/libxml" \\
	-droprequire=github.com/imperfectgo/zap-syslog -droprequire=go.uber.org/zap -droprequire=go.uber.org/multierr \\
	-droprequire=golang.org/x/sys -droprequire=github.com/chzyer/test "$work/go.mod" || exit 2
%(extra)s
echo "{\\"Replace\\": {\\"$repo/%(pkg)s/zz_demo_test.go\\": \\"$here/demo.go.txt\\"}}" > "$work/overlay.json"
export DEMO_WORK="$work"
timeout 280 go test -vet=off -count=1 %(flags)s -overlay "$work/overlay.json" -modfile "$work/go.mod" -run TestDemo "./%(pkg)s"
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def main():
    spec=importlib.util.spec_from_file_location("s",sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want=sys.argv[2:]
    for s in m.SEEDS:
        if want and s["id"] not in want: continue
        d=os.path.join(OUT,s["id"]); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
        shutil.copytree("/verif/stubs",d+"/stubs")
        open(d+"/demo.go.txt","w").write(s["test"])
        open(d+"/demo.sh","w").write(DEMO%dict(pkg=s["pkg"],flags=s.get("flags",""),extra=s.get("extra","")))
        os.chmod(d+"/demo.sh",0o755)
        json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
        sh("rm -rf /tmp/sc/repo; mkdir -p /tmp/sc; cp -a /repo /tmp/sc/repo")
        msgs=[]
        r=sh("bash %s/demo.sh"%d,cwd=SC)
        if r.returncode!=0: msgs.append("CLEAN FAILS: "+r.stdout[-3000:])
        for f,o,n in s["edits"]:
            p=os.path.join(SC,f); t=open(p).read()
            assert t.count(o)>=1,(s["id"],f,o)
            if t.count(o)>1: msgs.append("ambiguous %s x%d: first"%(o[:40],t.count(o)))
            open(p,"w").write(t.replace(o,n,1))
        g=sh("gofmt -l .; git diff",cwd=SC).stdout
        if not g.startswith("diff"): msgs.append("gofmt: "+g.split("diff")[0])
        open(d+"/patch.diff","w").write(sh("git diff",cwd=SC).stdout)
        # original lines?
        b=sh("git diff -U0 | grep -c '^-[^-]'",cwd=SC).stdout.strip()
        r=sh("cp go.mod go.sum /tmp/sc/; cd /tmp/sc && export PATH=/usr/local/go/bin:$PATH GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOWORK=off && go mod edit -replace=github.com/amarin/logging=/verif/stubs/logging -replace=github.com/amarin/libxml=/verif/stubs/libxml -droprequire=github.com/imperfectgo/zap-syslog -droprequire=go.uber.org/zap -droprequire=go.uber.org/multierr -droprequire=golang.org/x/sys -droprequire=github.com/chzyer/test go.mod && cd repo && go vet -modfile /tmp/sc/go.mod ./internal/index ./pkg/... ; go test -vet=off -count=1 -modfile /tmp/sc/go.mod ./...",cwd=SC)
        bad=[l for l in r.stdout.splitlines() if not l.startswith(("ok","?","#")) and not any(x in l for x in ("TestLoader_","loader_test.go","node.go:76","gomorphy/pkg/opencorpora\t")) and l!="FAIL"]
        if bad: msgs.append("TESTS: "+"\n".join(bad)[-2500:])
        r=sh("bash %s/demo.sh"%d,cwd=SC)
        if r.returncode==0: msgs.append("PATCHED DEMO PASSES")
        elif "--- FAIL" not in r.stdout and "panic" not in r.stdout and "fatal" not in r.stdout and "DATA RACE" not in r.stdout: msgs.append("PATCHED DEMO ODD: "+r.stdout[-1500:])
        print(s["id"],s["prop"],"removed lines",b,"OK" if not msgs else "\n   ".join(["PROBLEM"]+msgs)); sys.stdout.flush()
main()
