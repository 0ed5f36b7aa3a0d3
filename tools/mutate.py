#!/usr/bin/env python3
"""Try the mutants of tools/mutants.py on scratch copies: python3 tools/mutate.py [-j N] [-t] [NAME|Cxx...]
-t also runs the repository's tests of the changed packages' dependants."""
import os, re, shutil, subprocess, sys, concurrent.futures, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import mutants
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOPATH="/root/go",
           PATH="/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
a = sys.argv[1:]
j = 1
if a and a[0] == "-j":
    j, a = int(a[1]), a[2:]
tests = "-t" in a
a = [x for x in a if x != "-t"]
S = "/tmp/mut"


def one(x):
    name, props, edits = x
    r, v = "%s/%s/repo" % (S, name), "%s/%s/verif" % (S, name)
    shutil.rmtree("%s/%s" % (S, name), ignore_errors=True)
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git"))
    shutil.copytree(V, v, ignore=shutil.ignore_patterns(".git", "seeded", "replays", "evidence", "work", "__pycache__"))
    p = v + "/lib/vlib.py"
    t = open(p).read()
    open(p, "w").write(t.replace('REPO = "/repo"', 'REPO = "%s"' % r))
    out = []
    try:
        for f, pairs in edits.items():
            t = open(r + "/" + f).read()
            for o, n in pairs:
                if t.count(o) != 1:
                    return name + ": DOES NOT APPLY (%d) %s" % (t.count(o), f)
                t = t.replace(o, n)
            for pk in ("context", "strings", "io"):
                if any(re.search(r"\b%s\." % pk, n) for o, n in pairs) and '"%s"' % pk not in t:
                    t = t.replace("import (\n", 'import (\n\t"%s"\n' % pk, 1)
            open(r + "/" + f, "w").write(t)
        b = subprocess.run(["go", "build", "./..."], cwd=r, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if b.returncode:
            return name + ": DOES NOT BUILD " + b.stdout.decode()[-400:]
        if tests:
            b = subprocess.run(["go", "test", "-vet=off", "-count=1", "-p", "1", "-tags", "small medium large", "./..."], cwd=r, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            out.append("tests pass" if b.returncode == 0 else "TESTS FAIL " + " ".join(re.findall(r"^--- FAIL: (\w+)", b.stdout.decode("utf-8", "replace"), re.M)))
        for p in props:
            try:
                c = subprocess.run(["python3", v + "/check.py", p, "quick"], env=os.environ, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
                o, rc = c.stdout.decode("utf-8", "replace"), c.returncode
            except subprocess.TimeoutExpired as e:
                o, rc = (e.stdout or b"").decode("utf-8", "replace"), -9
            res = "CAUGHT" if rc == 1 and "VIOLATION property=" + p in o else "missed" if rc == 0 else "BROKEN rc=%d %s" % (rc, o[-600:])
            why = re.findall(r"VIOLATED: (.*)", o)
            out.append("%s %s%s" % (p, res, " (" + why[0][:160] + ")" if why else ""))
        return name + ": " + "; ".join(out)
    finally:
        shutil.rmtree("%s/%s" % (S, name), ignore_errors=True)


todo = [x for x in mutants.MUT if not a or x[0] in a or any(p in a for p in x[1])]
with concurrent.futures.ThreadPoolExecutor(j) as ex:
    for r in ex.map(one, todo):
        print(r, flush=True)
