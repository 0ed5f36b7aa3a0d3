#!/usr/bin/env python3
"""python3 check.py C01 [quick|thorough]: decide one property."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib

WHERE = {}
for mod, ids in {
    "lines": "C05 C26 C27",
    "listening": "C01 C02 C03 C04",
    "writing": "C14 C15 C16 C17 C18",
    "downsampling": "C11 C12 C13",
    "monitoring": "C19 C20",
    "counting": "C21",
    "configuring": "C24 C25",
    "fleet": "C22 C23 C28 C29 C30 C31 C33",
    "tapping": "C32",
    "filtering": "C06 C07 C08 C09 C10",
}.items():
    for i in ids.split():
        WHERE[i] = mod

if __name__ == "__main__":
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else None
    mod = importlib.import_module(WHERE[pid])
    vlib.Check(pid, tier).run(getattr(mod, pid))
