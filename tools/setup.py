#!/usr/bin/env python3
"""Check the tools and warm the build cache."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
c = vlib.Check("setup")
try:
    c.build()
    for p in sorted(os.listdir(os.path.join(vlib.VERIF, "inpkg"))):
        if p.endswith("_verif_test.go"):
            c.build_inpkg(p[:-len("_verif_test.go")])
    c.build_bin("influx-spout")
    print("ok")
except vlib.Broken as e:
    # The checks report this themselves; a repository that does not build is not a set-up error.
    print(e)
finally:
    subprocess.run(["rm", "-rf", c.work])
