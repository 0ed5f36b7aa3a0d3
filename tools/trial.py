#!/usr/bin/env python3
"""Apply planted bugs to /repo one at a time, run the check of their property
(or those given with -p), and undo them: python3 tools/trial.py [-p C01,C02] ID..."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
props = None
if a and a[0] == "-p":
    props = a[1].split(",")
    a = a[2:]
for i in a or sorted(os.listdir(V + "/seeded")):
    d = "%s/seeded/%s" % (V, i)
    m = json.load(open(d + "/meta.json"))
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"]).strip()
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    try:
        for p in props or [m["property"]]:
            r = subprocess.run(["python3", V + "/check.py", p, os.environ.get("VERIF_TIER", "quick")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            o = r.stdout.decode("utf-8", "replace")
            v = re.findall(r"^VIOLATION property=(\w+)", o, re.M)
            print(i, p, "rc=%d" % r.returncode, "CAUGHT" if r.returncode == 1 and p in v else "MISSED" if r.returncode == 0 else "BROKEN", flush=True)
            if r.returncode == 1:
                print("   ", (re.findall(r"VIOLATED: (.*)", o) or ["?"])[0][:300])
            elif r.returncode:
                print(o[-1500:])
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
