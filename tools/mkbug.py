"""mk(id, prop, file, [(old,new)], needs, breaks, demo, pkg='zzdemo')"""
import os, json, shutil, subprocess
V="/verif/seeded/"
SH='''#!/bin/bash
# Runs demo_test.go inside the module in the current directory (added by an overlay).
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%%s/%s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$D" > "$T/o.json"
go test -c -overlay "$T/o.json" -vet=off -o "$T/demo" ./%s || exit 3
cd "$T" && ./demo -test.timeout 200s -test.run '^TestDemo'
'''
def mk(id, prop, edits, needs, breaks, demo, pkg="zzdemo"):
    d=V+id; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    w="/tmp/mk/w"; shutil.rmtree(w,ignore_errors=True)
    subprocess.check_call(["git","clone","-q","/repo",w])
    for f,pairs in edits.items():
        s=open(w+"/"+f).read()
        for a,b in pairs:
            assert s.count(a)==1,(id,f,a,s.count(a)); s=s.replace(a,b)
        open(w+"/"+f,"w").write(s)
        o=subprocess.run(["/opt/veriftools/go1.27.3/bin/gofmt","-d",f],cwd=w,capture_output=True).stdout.decode()
        if o.strip() and f!="batch/batch.go": print(id,"gofmt",o)
    p=subprocess.check_output(["git","diff"],cwd=w); open(d+"/patch.diff","wb").write(p)
    open(d+"/demo.sh","w").write(SH%(pkg,pkg)); os.chmod(d+"/demo.sh",0o755)
    open(d+"/demo_test.go","w").write(demo)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+"/meta.json","w"),indent=1)
    shutil.rmtree(w)
