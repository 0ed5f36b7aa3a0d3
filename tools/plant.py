#!/usr/bin/env python3
"""Confirm planted bugs: python3 tools/plant.py ID... (every one of seeded/ by default).
In a scratch copy of /repo: the demonstration passes without the change; with it
the code builds, the stable tests pass and the demonstration fails."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go",
           PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
base = set()
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_pass", [])) if os.path.exists("/opt/vp/BASELINE.json") else set()


def run(cmd, cwd, t=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
        return p.returncode, p.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def tests(cwd):
    rc, o = run(["go", "test", "-json", "-vet=off", "-count=1", "-p", "1", "-timeout", "10m", "-tags", "small medium large", "./..."], cwd)
    bad = []
    for l in o.split("\n"):
        if l.startswith("{"):
            e = json.loads(l)
            if e.get("Action") == "fail":
                bad.append(e["Package"].split("/")[-1] + ":" + e.get("Test", ""))
    return rc, bad


for i in sys.argv[1:] or sorted(os.listdir(V + "/seeded")):
    d = "%s/seeded/%s" % (V, i)
    w = "/tmp/plant/" + i
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree("/repo", w, ignore=shutil.ignore_patterns(".git"))
    rc, o = run(["bash", d + "/demo.sh"], w)
    r = ["demo clean ok" if rc == 0 else "DEMO FAILS ON CLEAN: " + o[-1500:]]
    rc, o = run(["git", "apply", d + "/patch.diff"], w)
    if rc:
        r.append("PATCH DOES NOT APPLY " + o)
    rc, o = run(["go", "build", "./..."], w)
    if rc:
        r.append("DOES NOT BUILD " + o)
    rc, o = run(["bash", d + "/demo.sh"], w)
    r.append("demo fails with patch" if rc else "DEMO PASSES WITH PATCH")
    if os.environ.get("TESTS", "1") == "1":
        for _ in range(2):
            rc, bad = tests(w)
            if rc == 0:
                break
        r.append("tests pass" if rc == 0 else "TESTS FAIL %s" % bad)
    print(i, "; ".join(r), flush=True)
    shutil.rmtree(w, ignore_errors=True)
