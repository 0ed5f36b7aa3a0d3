"""C11-C13: the downsampler."""
import json, os, random
import gen, vlib

MODEL = """SPECIFICATION Spec
CONSTANTS Period = 2
 MaxTime = %d
 NLines = %d
 Start = 3
INVARIANTS Three OnePlace RightPeriod Window OncePerPeriod NotEarly
PROPERTIES EventuallyPublished
CHECK_DEADLOCK FALSE
"""


def model(c):
    c.mc("Downsampler", MODEL % (8, 2), label="Downsampler (2 lines)")
    if c.thorough:
        c.mc("Downsampler", MODEL % (9, 3), label="Downsampler (3 lines)", timeout=800)


def assign(c, scripts, what, par=4):
    """Scripts for assigners with a clock of their own."""
    c.build_inpkg("downsampler")
    n = max(1, min(par, len(scripts)))
    groups = [scripts[i::n] for i in range(n)]

    def one(k):
        src, out = c.path("assign-%d.json" % k), c.path("assign-%d.ndjson" % k)
        open(src, "w").write("\n".join(json.dumps(s) for s in groups[k]) + "\n")
        c.drive_inpkg("downsampler", "TestVerifAssign", {"VERIF_IN": src, "VERIF_OUT": out})
        c.judge("TraceDownsampler", out, "%s (group %d of %d)" % (what, k + 1, n), traces=len(groups[k]))
        os.remove(out)
    vlib.parallel(*[lambda k=k: one(k) for k in range(n)])
    for s in scripts[:3]:
        c.sample({"period": s["period"], "ops": s["ops"][:3]})


def live(c, scripts, what):
    return vlib.shards(c, "downsample", "TraceDownsampler", scripts, what, par=3,
                       show=lambda s: {k: (v if k != "msgs" else v[:3]) for k, v in s.items()})


S = 10 ** 9
YEAR1 = 62135596800 * S
PERIODS = [S // 10, S, 2 * S, 7 * S, 10 * S, 60 * S, 3600 * S, 7 * 3600 * S, 24 * 3600 * S, 7 * 24 * 3600 * S, 1000003, 61 * S]

INTS = ["0", "1", "-1", "2", "3", "7", "10", "-5", "100", "99", "1000000", "-123456789", "9223372036854775807", "-9223372036854775808",
        "9223372036854775806", "4611686018427387904", "-9223372036854775807", "5", "8", "13"]
FLOATS = ["0", "1", "1.5", "-2.25", "0.1", "3.14159", "100", "1e3", "-1.24e+10", "2E-3", ".5", "5.", "+1", "123456.789", "-0.001", "1e22", "7.0",
          "3.141592653589793", "0.1234567890123456", "1.0000000000000002", "-9007199254740991.5"]
STRINGS = ['""', '"a"', '"a b"', '"a,b=c"', '"x \\" y"', '"\\"\\""', '"= ,"', '"12i"', '"1.5"', '"t"', '"back\\\\slash"', '"a\\b"']
OTHERS = ["t", "f", "true", "FALSE", "T", "abc", "1.2.3", "12ii", "9223372036854775808i", "i", "-i", "--1", "1e"]
KEYS = ["cpu", "cpu,host=a", "cpu,host=b", "cpu,host=a,x=y", "m\\ n", "m\\,n,t\\ u=v\\ w", "m,a=b\\=c", "mem", "mem,a=1", "c", "cpu,host=ab", 'q"s', "cpu,host=a=", "cpu,host=a\\ "]
NAMES = ["v", "w", "x", "value", "ab\\ cd", "a\\,b", "n", "vv", "V", "a\\=b"]
BAD = ["foo", "v=1,w", "v=1,=2", "v=", "v=1,w=", "v=,w=1", 'v="abc', 'v=1,w="a b', "=1", "v=1,,w=2", 'v="a"b,w=1', 'v=1,w="x" y,u=1', ",v=1", "v=1,"]


def field(r, types):
    n = r.choice(NAMES)
    t = types.get(n)
    if t is None or r.random() < 0.08:
        t = r.choice(["int", "int", "float", "float", "string", "other"])
        types.setdefault(n, t)
    if t == "int":
        v = (r.choice(INTS) if r.random() < 0.5 else str(r.randrange(-1000, 1000))) + "i"
    elif t == "float":
        v = r.choice(FLOATS) if r.random() < 0.6 else repr(round(r.uniform(-1000, 1000), r.choice([0, 1, 3, 6])))
    else:
        v = r.choice(STRINGS if t == "string" else OTHERS)
    return n + "=" + v


def fields(r, types):
    k = r.choice([1, 1, 1, 2, 3, 5])
    return ",".join(field(r, types) for _ in range(k))


def line(r, ts, types, bad=0.06, keys=None):
    key = r.choice(keys or KEYS)
    if r.random() < bad:
        b = key + " " + r.choice(BAD)
    elif r.random() < 0.03:
        b = key            # nothing but a key
    else:
        b = key + " " + fields(r, types.setdefault(key, {}))
    return b + ("" if ts is None else " %d" % ts)


def end_of(t, p):
    return t - (t + YEAR1) % p + p


def stamp(r, now, p, bias=None):
    """Timestamps around what matters at time `now`."""
    e = end_of(now, p)
    x = r.random()
    if x < 0.12:
        return None
    if x < 0.45:
        return e + r.choice([-3, -2, -1, 0, 1, 2]) * p + r.choice([-1, 0, 1, 0, -1, 0])
    if x < 0.9:
        return e - 2 * p + r.randrange(3 * p)
    if x < 0.97:
        return e + r.choice([-1, 1]) * r.randrange(1, 100) * p
    return r.choice([0, 1, -1, 9223372036854775807, -9223372036854775808, now + 10 ** 15])


def clean(t):
    return t if t is None or -2 ** 63 <= t < 2 ** 63 else 0


def scenario(r, nops, bad=0.06, keys=None, lines=(1, 1, 2, 5), inside=False):
    p = r.choice(PERIODS)
    now = 1500000000 * S + r.randrange(10 ** 17)
    if r.random() < 0.2:
        now = end_of(now, p) - r.choice([0, 1, 2])
    s = {"period": str(p), "start": str(now), "ops": []}
    types = {}
    for _ in range(nops):
        if r.random() < 0.35:
            e = end_of(now, p)
            x = r.random()
            now = e + r.choice([-1, 0, 1]) if x < 0.4 else now + r.randrange(p) if x < 0.7 else e + r.randrange(p) if x < 0.85 else e + r.randrange(1, 5) * p + r.choice([0, -1, 1])
            now = max(now, int(s["ops"][-1]["at"]) if s["ops"] and "at" in s["ops"][-1] else 0, int(s["start"]))
            s["ops"].append({"at": str(now)})
        else:
            ls = []
            for _ in range(r.choice(lines)):
                t = clean(stamp(r, now, p)) if not inside else end_of(now, p) - r.randrange(1, p)
                ls.append(line(r, t, types, bad, keys))
            m = "\n".join(ls) + r.choice(["\n", "\n", "", "\n\n"])
            s["ops"].append({"msg": m})
            seen = [int(o["at"]) for o in s["ops"] if "at" in o]
    # let everything out
    for k in range(1, 5):
        s["ops"].append({"at": str(end_of(now, p) + k * p)})
    # times never go back
    last = int(s["start"])
    for o in s["ops"]:
        if "at" in o:
            last = max(last, int(o["at"]))
            o["at"] = str(last)
    return s


def live_scenario(r, kind="mixed"):
    p = r.choice([1000, 1000, 2000]) * 10 ** 6
    subjects = r.choice([["a"], ["a"], ["a", "b"], ["a", "b", "c"]])
    msgs = []
    types = {}
    for k in range(r.choice([2, 3, 5])):
        for phase in sorted(r.sample(range(25, 70), r.choice([1, 2, 3]))):
            ls = []
            for _ in range(r.choice([1, 2, 4])):
                x = r.random()
                if x < 0.15:
                    off = None
                elif x < 0.5:
                    off = (k + r.choice([-2, -1, 0, 1, 2])) * p + r.choice([0, 1, -1, p - 1])
                else:
                    off = (k - 1) * p + r.randrange(3 * p)
                t = line(r, None, types.setdefault("s", {}), 0.1)
                if r.random() < 0.12:
                    t += r.choice([',long="<*%d>"', " long=<*%d>!"]) % r.choice([200, 2000, 70000])
                ls.append(t + ("" if off is None else " <%+d>" % off))
            msgs.append({"period": k, "phase": phase, "subj": r.choice(subjects), "data": r.choice(["", "", "\n"]) + "\n".join(ls) + r.choice(["\n", "\n", "", "\n\n"])})
    return {"period": p // 10 ** 6, "subjects": subjects, "suffix": r.choice(["-archive", "-x", ".ds"]), "msgs": msgs, "debug": r.random() < 0.2}


def large(r):
    """More in a period than a message may hold."""
    msgs = []
    for k in range(2):
        keys = ["s%d,a=b" % j for j in range(40)]
        r.shuffle(keys)
        for ph in (30, 40, 50, 60):
            ks, keys = keys[:10], keys[10:]
            msgs.append({"period": k, "phase": ph, "subj": "a", "data": "".join('%s v=%d,w="<*%d>" <%+d>\n' % (x, r.randrange(9), r.choice([20000, 60000, 90000]), k * 2 * S + r.randrange(S)) for x in ks)})
    return {"period": 2000, "subjects": ["a"], "suffix": "-x", "msgs": msgs, "debug": False}


def C11(c):
    r = random.Random(c.seed)
    a = [scenario(r, 30) for _ in range(400 if c.thorough else 48)]
    b = [live_scenario(r) for _ in range(200 if c.thorough else 36)]
    vlib.parallel(lambda: model(c), lambda: assign(c, a, "assigner"), lambda: live(c, b, "downsampler"))
    c.assumptions.append("the end of a period may be noticed up to 3 s late by a running downsampler")


def C12(c):
    r = random.Random(c.seed)
    model(c)
    scripts = [scenario(r, 25, bad=0.02, keys=r.sample(KEYS, 3), lines=(1, 2, 5, 8), inside=r.random() < 0.7) for _ in range(400 if c.thorough else 40)]
    # the same lines in one message, or one by one
    for _ in range(100 if c.thorough else 10):
        p, now, types = 10 * S, 1500000001 * S, {}
        ls = [line(r, now - r.randrange(15 * S), types, 0, keys=KEYS[:2]) + "\n" for _ in range(12)]
        k = r.randrange(len(ls))
        for split in (["".join(ls)], ls, ["".join(ls[:k]), "".join(ls[k:])]):
            scripts.append({"period": str(p), "start": str(now), "ops": [{"msg": m} for m in split if m] + [{"at": str(now + d * p)} for d in (1, 2, 3)]})
    # values of changing length
    for _ in range(60 if c.thorough else 12):
        p, now, kind = 60 * S, 1500000001 * S, r.choice(["string", "other"])
        ops = []
        for k in range(r.choice([4, 8])):
            fs = []
            for n in r.sample(["a", "b", "c", "d"], r.choice([1, 2, 3, 4])):
                v = "".join(r.choice("abcxyz") for _ in range(r.choice([1, 1, 3, 8, 20])))
                fs.append("%s=%s" % (n, '"%s"' % (v + r.choice(["", '\\"q'])) if kind == "string" else v + "!"))
            ops.append({"msg": "".join("m%s %s %d\n" % (x, ",".join(fs), now) for x in r.sample(["", "2"], r.choice([1, 2])))})
        scripts.append({"period": str(p), "start": str(now), "ops": ops + [{"at": str(now + d * p)} for d in (1, 2, 3)]})
    # long sequences of numbers
    for _ in range(60 if c.thorough else 10):
        p, now = 60 * S, 1500000001 * S
        kind = r.choice(["small", "wide", "extreme", "float", "floats"])
        vals = []
        for _ in range(60):
            vals.append({"small": "%di" % r.randrange(3), "wide": "%di" % r.randrange(-10 ** 6, 10 ** 6), "extreme": r.choice(INTS) + "i",
                         "float": repr(round(r.uniform(0, 1), 6)), "floats": r.choice(FLOATS)}[kind])
        scripts.append({"period": str(p), "start": str(now), "ops": [{"msg": "m v=%s %d\n" % (v, now)} for v in vals] + [{"at": str(now + d * p)} for d in (1, 2, 3)]})
    r.shuffle(scripts)
    assign(c, scripts, "assigner", par=6)


def C13(c):
    r = random.Random(c.seed)
    a = [scenario(r, 25, bad=0.35, keys=r.sample(KEYS, 3)) for _ in range(400 if c.thorough else 52)]
    b = [live_scenario(r) for _ in range(200 if c.thorough else 30)]
    vlib.parallel(lambda: model(c), lambda: assign(c, a, "assigner"), lambda: live(c, b, "downsampler"))
