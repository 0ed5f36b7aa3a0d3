#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, "..", "lib"))
sys.path.insert(0, os.path.join(here, ".."))
import check

TRUST = ("Assurance is bounded: the specification is explored exhaustively for the small constants given in DESIGN.md; "
         "the code is judged on the executions recorded in this run (specification-derived and seeded random). Trusted: TLC, Go, the drivers' projections.")
NOTE = {
    "C05": "Splitter run on every placement of newlines in short buffers plus random long ones, and listener/writer/downsampler outputs measured.",
    "C26": "Every string up to 4 (thorough 5) significant characters, random ones beyond.",
    "C19": "Message histories over several sources and timestamps (equal, older, newer, missing), with what the monitor serves read after each step.",
    "C20": "Malformed messages of every kind the specification's strict grammar refuses, interleaved with good ones.",
    "C21": "Concurrent histories of every counter operation, judged against all outcomes the specification allows.",
    "C22": "Pipelines of every component with odd names; every report parsed, its time and interval checked, and counters compared with the work done at rest, also with failing InfluxDBs and under overload.",
    "C23": "Every mode polled while starting, working and stopping, with a delayed bus; data sent as soon as it says ready; the probe registers by themselves.",
    "C28": "Malformed, binary, huge and truncated data at every input, and marked valid lines afterwards.",
    "C29": "Random pipelines (in one process and as separate processes); every marked line accounted for at every subject and database.",
    "C30": "Members starting and stopping while messages are published; scripts also derived from behaviours of Life.tla.",
    "C31": "Stopped idle, pending, under load, with hanging and failing InfluxDB, and restarted; goroutines and connections looked for.",
    "C33": "Random pipelines whose members lose and regain the bus (with a NATS client that waits 20 ms, not 2 s, between attempts, so that outages are long in attempts), fed, stopped and restarted meanwhile.",
    "C24": "Random pairs of files over every option, judged by the values loaded.",
    "C25": "Random configurations breaking any of the constraints, files that are broken, unreadable or absent, and rules put to use.",
    "C32": "The built tap run against a bus: random lines, binary data, subjects and expressions.",
    "C27": "Every short string over digits, sign, space and newline; limits of 64 bits and of the nanosecond range for each precision.",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "..", "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "technique": "TLA+ specification checked with TLC; executions of the real code validated against it by TLC (trace validation, specification-derived scripts)",
                 "level": "model_checking", "level_note": (NOTE.get(i, "") + " " + TRUST).strip()} for i in ids if i in check.WHERE],
     "not_applicable": [{"property": i, "reason": "no check yet: work in progress"} for i in ids if i not in check.WHERE],
     "notes": "No hooks in /repo: the checks use exported interfaces, the built binaries and overlay test files. See DESIGN.md."}
open(os.path.join(here, "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
print(len(m["checks"]), "claimed")
