"""C21: counters."""
import json, random
import vlib


def C21(c):
    c.mc("Counters", """SPECIFICATION Spec
CONSTANTS Threads = {%s}
 NCounters = 2
 Programs <- MCPrograms
 Initials = {0, 2}
INVARIANTS Orderly NeverDown Distinct
PROPERTY Ends
CHECK_DEADLOCK FALSE
""" % ("a, b, c" if c.thorough else "a, b"), timeout=800)
    r = random.Random(c.seed)
    scripts = []

    def add(threads, kind=None, names=None, start=None):
        scripts.append({"kind": kind or r.choice(["anon", "named"]), "names": names or ["c", "d"], "start": start or ["0", "3"],
                        "threads": threads, "ms": 1500 if c.thorough else 220})
    for kind in ("anon", "named"):
        for n in (2, 3, 4):
            add([[["inc", "0"]] * 2] * n, kind)
            add([[["max", "0", str(5 + 3 * t)], ["get", "0"]] for t in range(n)], kind)
            add([[["max", "0", str(20 - 3 * t)]] for t in range(n)], kind)
            add([[["inc", "0"], ["inc", "0"]]] * (n - 1) + [[["max", "0", "2"], ["max", "0", "3"]]], kind)
            add([[["inc", "0"], ["max", "1", "9"]]] * (n - 1) + [[["snap"], ["get", "0"], ["snap"]]], kind)
    big = ["9007199254740993", "4294967295", "4294967296", "18446744073709551610", "9223372036854775807"]
    names = [["received"], ["a", "b", "c"], ["b", "a"], ["x%d" % i for i in range(9)], ["lines", "Lines", "lines "]]
    for _ in range(40 if c.thorough else 24):
        nm = r.choice(names)
        start = [r.choice(["0", "0", "1"] + big) for _ in nm]

        def op():
            i = r.randrange(len(nm))
            x = r.random()
            if x < .4:
                return ["inc", str(i)]
            if x < .75:
                return ["max", str(i), str(min(int(start[i]) + r.randrange(-1 if start[i] != "0" else 0, 6), 2 ** 64 - 2))]
            return ["get", str(i)] if x < .9 else ["snap"]
        n = r.choice([2, 3, 4])
        add([[op() for _ in range(r.choice([1, 2, 3] if n < 4 else [1, 2]))] for _ in range(n)], names=nm, start=start)
    src, out = c.path("counters.json"), c.path("counters.ndjson")
    open(src, "w").write("\n".join(json.dumps(s) for s in scripts) + "\n")
    c.drive(["counters", src, out])
    evs = [json.loads(x) for x in open(out)]
    c.notes["concurrent_rounds"] = sum(e.get("rounds", 0) for e in evs)
    c.log("%d concurrent rounds, %d different outcomes" % (c.notes["concurrent_rounds"], len(evs)))
    c.judge("TraceCounters", out, "counters", traces=c.notes["concurrent_rounds"])
    for s in scripts[:3]:
        c.sample(s)
    c.assumptions.append("interleavings are those the scheduler produced in the rounds executed; wrapping around at 2^64 is out of scope")
