"""C14-C18: the writer."""
import json, random
import gen, vlib

MODEL = """SPECIFICATION Spec
CONSTANTS Workers = {%s}
 NMsgs = %d
 MaxCount = %d
 PieceSize = %d
 RetryBatches = %d
 RetryTicks = 2
 MaxTime = %d
 Answers = {"ok", "temp", "perm"}
INVARIANTS ExactlyOnePlace WellCut Accounted NeverAgain Bounded NoRetries Counted
PROPERTIES InTime OnceAccepted BusDrained EveryMessageAttempted
CHECK_DEADLOCK FALSE
"""


def model(c):
    c.mc("Writer", MODEL % ("a", 3, 1, 1, 2, 4), label="Writer (1 worker, 3 messages, 2 waiting batches)", idle_ok=("Wake",))
    c.mc("Writer", MODEL % ("a, b", 3, 3, 2, 0, 3), label="Writer (2 workers, 3 messages, no retries)", idle_ok=("Hand", "RetryTake", "RetryFire", "RetryWrite"))
    if c.thorough:
        c.mc("Writer", MODEL % ("a", 4, 1, 1, 2, 5), label="Writer (1 worker, 4 messages, 2 waiting batches)", idle_ok=("Wake",), timeout=800)
        c.mc("Writer", MODEL % ("a, b", 3, 2, 1, 1, 3), label="Writer (2 workers, 3 messages, 1 waiting batch)", timeout=800)


def run(c, scripts, what, module="TraceWriter", par=4):
    def show(s):
        return {k: (v if k != "msgs" else [json.dumps(m)[:100] for m in v[:4]]) for k, v in s.items()}
    return vlib.shards(c, "write", module, scripts, what, show=show, par=par)


BASE = {"workers": 1, "count": 5, "size": 10000, "age": 300, "rules": [], "retries": 0, "interval": 100, "ttl": 10000,
        "timeout": 5000, "db": "junk_nse", "user": "", "pass": "", "subjects": 1, "group": "", "first": [], "again": [], "strict": False,
        "idle": 1500, "max": 30000}


def script(**kw):
    s = dict(BASE)
    s.update(kw)
    if "idle" not in kw:
        s["idle"] = s["age"] + 1600
    return s


SEQ = [0]


def message(r, big=0.1, lines=None, size=10 ** 6):
    """Terminated lines, recognisable; some longer than a request may be."""
    SEQ[0] += 1
    tag = "m%d" % SEQ[0]
    x = r.random()
    if lines is None and x < big:
        if size <= 1000:
            n = r.choice([size - 2, size - 1, size, size + 1, 2 * size, 3 * size])
            long = ["".join("%s_%d_" % (tag, k) for k in range(n))[:n]]
        else:
            long = [tag, ["x", r.choice([200, 5000, 40000])]]
        return [tag + ".0 f=1\n"] * r.choice([0, 1]) + long + ["\n" + tag + ".2\n"]
    if lines is None and x < big + 0.1 and size > 1000:
        return [r.choice([tag + "\n\n", "\n" + tag + "\n", tag + "\r\n", "\x00\xff" + tag + "\n", tag + " %s %d%%\n"])]
    k = lines or r.choice([1, 1, 2, 3, 6])
    return ["".join("%s.%d,a=b f=%d 15%015d\n" % (tag, i, i, r.randrange(10 ** 15)) for i in range(k))]


def C14(c):
    model(c)
    r = random.Random(c.seed)
    scripts = []
    for i in range(240 if c.thorough else 64):
        workers = r.choice([1, 1, 2, 4, 8])
        subjects = r.choice([1, 1, 2, 3, 6])
        n = r.choice([1, 7, 30, 80])
        size = r.choice([50, 100, 150, 1000, 5000, 60000, 10 ** 6])
        msgs = [{"data": message(r, size=size), "subj": r.randrange(subjects), "pause": r.choice([0] * 10 + [1, 20])} for _ in range(n)]
        count = r.choice([1, 2, 3, 10, 1000])
        if count == 1:
            for m in msgs:      # a message of its own may lack the last newline
                if r.random() < 0.3 and m["data"][-1].endswith("\n") and m["data"] != ["\n"]:
                    m["data"][-1] = m["data"][-1][:-1]
        scripts.append(script(workers=workers, subjects=subjects, count=count, size=size,
                              age=r.choice([50, 300, 1000]), msgs=msgs, group=r.choice(["", "g"]),
                              first=[r.choice(["ok", "204", "200", "201", "299", "slow:30"]) for _ in range(60)],
                              retries=r.choice([0, 3])))
    run(c, scripts, "writer")


NAMES = ["junk_nse", "db", "a b", "a&b", "db?x=1", "x%20y", "metrics+1", "d#1", "tenant;a", "k=v", "../x", "plain-db.v2"]


def C15(c):
    model(c)
    r = random.Random(c.seed)
    scripts = []
    for i in range(240 if c.thorough else 64):
        x = i % 4
        count, size, age = 1000, 10 ** 6, 60000
        if x in (0, 3):
            count = r.choice([1, 2, 3, 7])
        if x in (1, 3):
            size = r.choice([30, 60, 61, 100, 200])
        if x == 2 or r.random() < 0.3:
            age = r.choice([100, 400, 1200, 2300])
        msgs, total = [], 0
        for k in range(r.choice([5, 12, 25])):
            if size == 10 ** 6:
                d = message(r, lines=r.choice([1, 2]))
            else:       # of chosen size, so that limits are met exactly or only just missed
                SEQ[0] += 1
                tag = "s%d" % SEQ[0]
                left = size - total % size
                n = r.choice([left, left - 1, left + 1, size, size - 1, size // 2, 10, 15, 3 * size])
                n = max(n, len(tag) + 1)
                total = 0 if total + n >= size else total + n
                d = [tag, ["z", n - len(tag) - 1], "\n"]
            msgs.append({"data": d, "pause": r.choice([0, 0, 0, 5, 60, 150] if age < 60000 else [0, 0, 5])})
        if age < 60000:
            for k in r.sample(range(len(msgs)), 2):
                msgs[k]["pause"] = r.choice([age - 50, age + 100, age + 1300])
        user = r.choice(["", "user", "us er", "o\"k"])
        rules = []
        if r.random() < 0.4 and size == 10 ** 6:
            drop = {"op": "seq", "args": [{"op": "bol"}, gen.lit("drop")]}
            rules = [r.choice([{"type": "basic", "match": "keep"}, {"type": "negregex", "match": gen.regex_text(drop), "re": drop}])]
            for m in msgs:
                m["data"] = [r.choice(["keep", "drop"]) + " f=%d\n" % r.randrange(10 ** 9) + r.choice(["", "keep g=%d\n" % r.randrange(10 ** 9)])]
        scripts.append(script(count=count, size=size, age=age, msgs=msgs, strict=True, user=user, rules=rules,
                              **{"pass": r.choice(["", "secret", "p:w"])}, db=r.choice(NAMES),
                              idle=(age if age < 60000 else 0) + 2200, first=r.choice([[], ["slow:100"] * 40])))
    for i in range(12 if c.thorough else 6):     # the last messages of a batch arrive only just in time
        msgs = [{"data": ["j%d.%d\n" % (i, k)], "pause": p} for k, p in enumerate([0] * r.choice([1, 2]) + [r.choice([4200, 4400])])]
        scripts.append(script(count=1000, size=10 ** 6, age=4500, msgs=msgs, strict=True, idle=8000))
    run(c, scripts, "writer")
    c.assumptions.append("times are those of the machine the check runs on; 0.8 to 2.5 s of delay are tolerated, as the machine is busy, and none the other way round")


def C16(c):
    model(c)
    r = random.Random(c.seed)
    scripts = []
    for i in range(240 if c.thorough else 60):
        workers = r.choice([1, 1, 2, 4])
        g = gen.Lines(r, dup=0.2, weird=0.3)
        rs = [{k: v for k, v in x.items() if k != "subject"} for x in gen.rules(r, r.choice([1, 1, 2, 4]))]
        if i % 12 == 11:
            rs = []
        count = r.choice([1, 3, 10, 1000])
        msgs = []
        for k in range(r.choice([2, 8, 20])):
            ls = []
            for _ in range(r.choice([1, 1, 3, 8])):
                x = r.random()
                if x < 0.25:
                    ls.append(r.choice([g.bad(), g.bad(), "# %s" % g.bad()]))
                elif x < 0.35:
                    ls.append(g.odd())
                elif x < 0.6 and rs:
                    y = r.choice(rs)
                    ls.append(g.line(meas=y["match"]) if y["type"] == "basic" else g.line(tags=[tuple(t) for t in y["tags"]]) if y["type"] == "tags" else g.line())
                else:
                    ls.append(g.line(ts=r.choice(["", "1500000000000000000"])))
            ls = [x if x.endswith("\n") else x + "\n" for x in ls]
            d = "".join(ls)
            if count == 1 and r.random() < 0.3 and len(d) > 1:
                d = d[:-1]
            msgs.append({"data": [d], "pause": r.choice([0] * 10 + [10])})
        scripts.append(script(workers=workers, count=count, size=r.choice([100, 1000, 10 ** 6]), age=r.choice([50, 300]), msgs=msgs, rules=rs,
                              debug=r.random() < 0.2))
    run(c, scripts, "writer")


TEMP = ["500", "503", "300", "399", "599", "drop", "reset", "garbage", "half", "302", "304", "500", "503", "moved:302", "moved:303"]
PERM = ["400", "404", "401", "413", "429", "499"]


def plain(r, n, pause):
    out = []
    for _ in range(n):
        SEQ[0] += 1
        out.append({"data": ["b%d f=1\n" % SEQ[0]], "pause": pause(r)})
    return out


def C17(c):
    model(c)
    r = random.Random(c.seed)
    scripts = []
    for i in range(200 if c.thorough else 64):
        retries = r.choice([0, 1, 1, 2, 2, 3, 5])
        interval = r.choice([150, 300, 500])
        ttl = r.choice([400, 1000, 2500, 60000])
        n = r.choice([1, 2, 4, 8, 12])
        mood = i % 4
        if mood == 0:      # a long outage: expiry or displacement
            first, again = [r.choice(TEMP)] * n, [r.choice(TEMP) for _ in range(200)]
            ttl = r.choice([400, 1000, 2500])
        elif mood == 1:    # it recovers after a while
            first, again = [r.choice(TEMP)] * n, [r.choice(TEMP) for _ in range(r.choice([1, 3, 8]))]
        elif mood == 2:    # everything
            first = [r.choice(TEMP + PERM + ["ok"] * 6 + ["hang", "slow:100"]) for _ in range(n)]
            again = [r.choice(TEMP + PERM + ["ok"] * 6 + ["hang", "slow:100"]) for _ in range(30)]
        else:              # retries that take long, while more fails
            first = [r.choice(["500", "500", "ok"]) for _ in range(n)]
            again = [r.choice(["hang", "slow:120", "500", "400"]) for _ in range(8)]
        if i % 16 == 5:    # an outage while messages keep coming: retries go on at their interval
            n, retries, interval, ttl = 45, r.choice([1, 2, 5]), r.choice([300, 500]), r.choice([2500, 60000])
            first, again = [r.choice(TEMP[:2])] * n, [r.choice(TEMP[:2]) for _ in range(40)]
        pauses = [100] if i % 16 == 5 else [0, 0, 20, 100, 400]
        timeout = r.choice([250, 600])
        if i % 16 == 7:    # slow, but not too slow
            timeout, retries = 1500, max(1, retries)
            again = [r.choice(["slow:900", "500"]) for _ in range(8)]
        wait = ttl if mood == 0 else interval * (n + 12)
        scripts.append(script(count=1, retries=retries, interval=interval, ttl=ttl, timeout=timeout, first=first, again=again,
                              msgs=plain(r, n, lambda r: r.choice(pauses)), idle=interval + 1500, max=wait + 20000))
    run(c, scripts, "writer", module="TraceRetry")
    c.assumptions.append("0.8 to 2.5 s of delay between a retry being due and being seen are tolerated, as the machine is busy")


def C18(c):
    model(c)
    r = random.Random(c.seed)
    scripts = []
    for i in range(200 if c.thorough else 56):
        workers = r.choice([1, 1, 2, 4])
        n = r.choice([5, 20, 50])
        retries = r.choice([0, 1, 2, 5, 20])
        bad = [TEMP, PERM, TEMP + PERM + ["ok"] * 8, ["hang", "hang", "500", "ok"], ["hang"], ["drop", "reset"]][i % 6]
        first = [r.choice(bad) for _ in range(r.choice([3, 10]))]
        again = [r.choice(bad) for _ in range(r.choice([2, 6]))]
        if i % 6 == 3 and retries:      # first attempts hang while further ones fail quickly
            first, again, retries = ["500"] * 4 + ["hang"] * 3 + ["ok"], ["500"] * 30, 1
        if bad == ["hang"]:
            first, again = first[:4], again[:4]
        size = r.choice([60, 1000, 10 ** 6])
        many = i % 12 == 1      # many requests fail
        if many:
            n, first = 50, [r.choice(PERM + TEMP[:2]) for _ in range(50)]
        scripts.append(script(workers=workers, count=1 if many else r.choice([1, 2, 5]), size=size, age=200, retries=retries,
                              interval=r.choice([10, 50, 100]), ttl=r.choice([500, 3000]), timeout=8000 if many else r.choice([200, 500]),
                              msgs=[{"data": message(r, big=0.05, size=min(size, 1000)), "pause": r.choice([0, 0, 0, 20, 60])} for _ in range(n)],
                              first=first, again=again, idle=2200, max=60000, debug=r.random() < 0.3))
    run(c, scripts, "writer")


def pieces(c, r):
    """Batches much larger than a request may be (for C05)."""
    out = []
    for i in range(40 if c.thorough else 12):
        size = r.choice([40, 64, 100, 333, 1000])
        msgs = [{"data": message(r, big=0.3, size=size)} for _ in range(r.choice([3, 10]))]
        for m in msgs:
            if r.random() < 0.3:
                m["data"] = message(r, lines=r.choice([10, 30]))
        out.append(script(count=r.choice([1, 1000]), size=size, age=100, msgs=msgs))
    return out
