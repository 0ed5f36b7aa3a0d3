"""C22, C23, C28-C31: several components together."""
import json, random
import gen, vlib

MODES = ["listener", "listener_http", "filter", "downsampler", "writer", "monitor"]


class Marks:
    """Marked lines."""

    def __init__(self, r, simple=False):
        self.r, self.n, self.simple = r, 0, simple
        self.lines = gen.Lines(r, vals=[v for v in gen.VALS if len(v) < 12])

    def line(self, simple=None, old=False, meas=None):
        r = self.r
        self.n += 1
        mark = ("id", "zq%d" % self.n)
        if simple or (simple is None and self.simple):
            ts = r.choice(["", " <+0>", " <+0>", " <-1000000>"])
            t = "%s,%s f=%s%s" % (meas or r.choice(["cpu", "mem", "disk"]), r.choice(["id=zq%d" % self.n, "a=1,id=zq%d" % self.n, "id=zq%d,z=x" % self.n]), r.choice(["1", "2", "15"]), ts)
            return {"id": self.n, "text": t}
        tags = [t for t in self.lines.tags() if t[0] != "id"]
        tags.insert(r.randint(0, len(tags)), mark)
        ts = "<-%d>" % (3600 * gen.S) if old else r.choice(["", "<+0>", "<+0>", "<-%d>" % gen.S, "<+%d>" % gen.S])
        t = self.lines.line(ts, meas=meas, tags=tags, nl="")
        return {"id": self.n, "text": t}

    def bad(self):
        self.n += 1
        return {"id": self.n, "text": self.r.choice(["m,id=zq%d,a f=1", "m,=x,id=zq%d f=1", "m,id=zq%d, f=1", "m,id=zq%d,a=1,,b=2 f=1", "m,a=,id=zq%d f=1"]) % self.n}

    def some(self, n, simple=None):
        out = []
        for _ in range(n):
            k = self.r.random()
            out.append(self.bad() if k < .08 and not simple else self.line(simple, old=(k < .14 and not simple)))
        return out


def member(mode, **k):
    d = dict(mode=mode, name=mode, count=1, size=100000, age=60, workers=2, timeout=2000, stats=60000, subjects=[], db=0, dbname="")
    d.update(k)
    return d


def op(o, **k):
    return dict(k, op=o)


def starts(r, n, keep=False):
    ids = list(range(n))
    if not keep:
        r.shuffle(ids)
    return [op("start", i=i) for i in ids]


def stops(n):
    return [op("stop", i=i) for i in range(n)]


def show(s):
    return {"members": [{k: m[k] for k in ("mode", "subjects", "group") if m.get(k)} for m in s["members"]], "ops": [json.dumps(o)[:160] for o in s["ops"][:8]]}


def run(c, scripts, what, par=4, per=0, env=None, **kw):
    """Components in processes of their own and others are kept apart: a
    process being started holds the ports of its parent for a moment."""
    def part(some, what, par):
        if some:
            vlib.shards(c, "fleet", "TraceFleet", some, what, show=show, par=par, per=per, env=env, drive_timeout=600, **kw)
    own = [s for s in scripts if any(m.get("proc") for m in s["members"])]
    c.build(hasty=kw.get("hasty", False))
    k = max(1, par * len(own) // len(scripts)) if own else 0
    vlib.parallel(lambda: part([s for s in scripts if s not in own], what, par - k), lambda: part(own, what + " (own processes)", k))


# ---------------------------------------------------------------- topologies
def topology(r, proc=False, names=False, downs=True, chain=True):
    """Listeners, filters, writers and perhaps a downsampler, connected."""
    ms, slow = [], False
    simple = downs and r.random() < .4
    for k in range(r.choice([1, 1, 2])):
        count = 1 if simple else r.choice([1, 1, 1, 4])
        slow = slow or count > 1
        ms.append(member(r.choice(["listener", "listener_http"]), name="l%d" % k, subjects=["in"], count=count))
    n = r.choice([0, 1, 2, 3])
    outs = ["r0", "r1", "r2"][:n]
    rules = gen.rules(r, n, subjects=[r.choice(outs) for _ in range(n)])
    for k in range(r.choice([1, 1, 2, 3])):
        ms.append(member("filter", name="f%d" % k, subjects=["in"], rules=rules, junk="junk", workers=r.choice([1, 2, 4])))
    places = sorted({x["subject"] for x in rules}) + ["junk"]
    if chain and n and r.random() < .4:
        sub = gen.rules(r, 2, subjects=["s0", "s1"])
        for k in range(r.choice([1, 2])):
            ms.append(member("filter", name="g%d" % k, subjects=[rules[0]["subject"]], rules=sub, junk="junk2", workers=r.choice([1, 2])))
        places += ["s0", "s1", "junk2"]
    if simple:
        src = r.sample(places, r.choice([1, min(2, len(places))]))
        suffix = r.choice(["-archive", "_x"])
        ms.append(member("downsampler", name="d", subjects=src, period=1000, suffix=suffix))
        places += [s + suffix for s in src]
        slow = True
    db = 0
    for k in range(r.choice([1, 2, 2, 3])):
        group = r.choice(["", "g%d" % k])
        subs = r.sample(places + ["in"], min(len(places) + 1, r.choice([1, 1, 2, 3])))
        wr = gen.rules(r, r.choice([0, 0, 0, 1, 2]), subject=False)
        same = r.random() < .5
        for j in range(1 if not group else r.choice([1, 2, 3])):
            count = r.choice([1, 1, 3])
            slow = slow or count > 1
            ms.append(member("writer", name="w%d%d" % (k, j), subjects=subs if j == 0 or r.random() < .6 else subs[:1], group=group, rules=wr,
                             db=db % 2, dbname="b%d" % db, count=count, workers=r.choice([1, 2, 3])))
            if not same:
                db += 1
        db += 1
    for m in ms:
        m["proc"] = proc
    return ms, simple, slow


def feeding(r, marks, ms, n, direct=()):
    """Concurrent streams of lines into the listeners (and the bus)."""
    ways = []
    for i, m in enumerate(ms):
        if m["mode"].startswith("listener"):
            for _ in range(r.choice([1, 2])):
                ways.append([op("udp" if m["mode"] == "listener" else "http", i=i, lines=marks.some(r.choice([1, 1, 2, 4]))) for _ in range(n)])
    for s in direct:
        ways.append([op("pub", to=s, lines=marks.some(r.choice([1, 2]))) for _ in range(n)])
    return op("par", ops=ways)


def C29(c):
    life(c)
    r = random.Random(c.seed)
    scripts = []
    n = 120 if c.thorough else 20
    for k in range(n):
        proc = k % 4 == 3
        ms, simple, slow = topology(r, proc)
        marks = Marks(r, simple)
        ops = starts(r, len(ms))
        for _ in range(r.choice([1, 2])):
            ops += [feeding(r, marks, ms, r.choice([1, 3, 5])), op("settle", want=0, ms=2500 if slow else 400)]
        scripts.append({"members": ms, "dbs": 2, "ops": ops, "record": []})
    spout = c.build_bin("influx-spout")
    vlib.parallel(lambda: run(c, scripts, "composed components", par=5, env={"VERIF_SPOUT": spout}), lambda: joined(c))


def joined(c):
    """Lines without newline at the end of a body."""
    ms = [member("listener_http", name="l", subjects=["in"]), member("filter", name="f", subjects=["in"], rules=[], junk="junk", workers=1),
          member("writer", name="w", subjects=["junk"], count=2, workers=1, dbname="b")]
    ops = starts(random.Random(1), 3, True)
    texts = ["cpu,id=zq1 f=1", "cpu,id=zq2 f=1"]
    for k in (1, 2):
        ops += [op("http", i=0, lines=[{"id": k, "text": texts[k - 1]}], bare=True), op("sleep", ms=300)]
    ops += [op("settle", want=0, ms=1500)]
    src, out = c.path("joined.json"), c.path("joined.ndjson")
    open(src, "w").write(json.dumps({"members": ms, "dbs": 1, "ops": ops, "record": []}) + "\n")
    c.drive(["fleet", src, out])

    def known(ev, detail):
        """Is it exactly this: the two lines became one on their way into the database?"""
        seen = [x for x in map(json.loads, open(out)) if x["e"] == "got" and x["where"] == "db0/b"]
        if len(seen) == 1 and [x["text"] for x in seen[0]["lines"]] == ["".join(texts)]:
            return "the last line of a body, if it has no newline, is joined with the first line of the next message by the writer (%s)" % "".join(texts)
        return None
    c.judge("TraceFleet", out, "bodies without final newline", known=known)


def C30(c):
    life(c)
    r = random.Random(c.seed)
    scripts = []
    for k in range(120 if c.thorough else 24):
        marks = Marks(r, True)
        rules = gen.rules(r, 1, subjects=["r0"], types=["basic"], meas=["cpu"])
        ms = []
        for j in range(r.choice([1, 2, 3])):
            ms.append(member("filter", name="f%d" % j, subjects=["a"], rules=rules, junk="junk", workers=r.choice([1, 2])))
        if r.random() < .4:     # another set of filters elsewhere
            for j in range(r.choice([1, 2])):
                ms.append(member("filter", name="h%d" % j, subjects=["b"], rules=[dict(rules[0], subject="s0")], junk="junk3"))
        db = 0
        for j in range(r.choice([1, 2, 3])):
            ms.append(member("writer", name="w%d" % j, subjects=r.choice([["r0"], ["r0", "a"], ["a", "b"]]), db=db % 2, dbname="b%d" % db))
            db += 1
        for g in r.choice([["g"], ["g", "h"], ["g", "h"], ["g", "G", "h"]]):
            subs = r.choice([["r0"], ["r0", "a"], ["junk", "a", "b"]])
            for j in range(r.choice([1, 2, 3])):
                ms.append(member("writer", name="%s%d" % (g, j), group=g, subjects=subs, db=db % 2, dbname="b%d" % db, workers=r.choice([1, 3])))
                if r.random() < .5:
                    db += 1
            db += 1
        slow = r.random() < .3
        if slow:
            subs = r.choice([["a"], ["a", "b"], ["b", "r0"]])
            for j in range(r.choice([1, 2])):
                ms.append(member("downsampler", name="d%d" % j, subjects=subs, period=1000, suffix="-x%d" % j))
        late = r.sample(range(len(ms)), r.choice([0, 1, 1, 2]))
        ops = [op("start", i=i) for i in range(len(ms)) if i not in late]

        def feed(n):
            return [[op("pub", to=s, lines=marks.some(r.choice([1, 2, 3]), True)) for _ in range(n)] for s in r.choice([["a"], ["a", "b"], ["a", "r0", "b"]])]
        ops += [op("par", ops=feed(r.choice([2, 5]))), op("settle", want=0, ms=2500 if slow else 350)]
        if late:
            ops += [op("par", ops=feed(8) + [[op("start", i=i)] for i in late]), op("settle", want=0, ms=2500 if slow else 350)]
        if r.random() < .5:
            i = r.randrange(len(ms))
            ops += [op("par", ops=feed(6) + [[op("sleep", ms=r.choice([0, 1, 3])), op("stop", i=i)]]), op("settle", want=0, ms=2500 if slow else 350)]
            if r.random() < .6:
                ops += [op("par", ops=feed(5) + [[op("start", i=i)]]), op("settle", want=0, ms=2500 if slow else 350)]
        ops += [op("par", ops=feed(4)), op("settle", want=0, ms=2500 if slow else 350)]
        scripts.append({"members": ms, "dbs": 2, "ops": ops, "record": []})
    for b in behaviours(c, "G", 3, 4, 12) + behaviours(c, "H", 4, 4, 12):
        scripts.append(b)
    scripts = [from_spec(r, x) if isinstance(x, list) else x for x in thin(r, scripts, 100 if c.thorough else 14)]
    vlib.parallel(lambda: run(c, scripts, "sharing of messages", par=5), lambda: clash(c))


def clash(c):
    """A writer whose queue group is called like the one filters use."""
    ms = [member("filter", name="f", subjects=["a"], rules=[], junk="junk", workers=1), member("writer", name="w", subjects=["a"], group="filter", workers=1, dbname="b")]
    ops = starts(random.Random(1), 2, True)
    ops += [op("pub", to="a", lines=[{"id": k, "text": "cpu,id=zq%d f=1" % k}]) for k in range(1, 13)] + [op("settle", want=0, ms=400)]
    src, out = c.path("clash.json"), c.path("clash.ndjson")
    open(src, "w").write(json.dumps({"members": ms, "dbs": 1, "ops": ops, "record": []}) + "\n")
    c.drive(["fleet", src, out])

    def known(ev, detail):
        """Is it exactly this: each line went to one of the two?"""
        seen = {w: {x["id"] for e in map(json.loads, open(out)) if e["e"] == "got" and e["where"] == w for x in e["lines"]} for w in ("junk", "db0/b")}
        if not seen["junk"] & seen["db0/b"] and seen["junk"] | seen["db0/b"] == set(range(1, 13)):
            return "a writer with queue_group filter takes messages away from the filters of the same subject (they use the queue name filter)"
        return None
    c.judge("TraceFleet", out, "a queue group called filter", known=known)


def thin(r, scripts, n):
    """The longest of the behaviours with the same beginning, and only n."""
    own = [s for s in scripts if isinstance(s, dict)]
    longest = {}
    for s in scripts:
        if isinstance(s, list):
            longest[json.dumps(s[:6])] = s
    return own + r.sample(list(longest.values()), min(n, len(longest)))


def from_spec(r, acts):
    """A behaviour of Life as a scenario.  Whatever happens while some member
    is starting happens concurrently."""
    marks = Marks(r, True)
    ids = sorted({x["m"] for x in acts if x["m"]})
    four = max(ids) > 3 or not any(x["m"] == 1 for x in acts)
    group = {m: (["f", "h", "g", "g"] if four else ["g", "g", "h", "h"])[m - 1] for m in range(1, 5)}
    pair = r.choice(["filter", "writer"])
    kind = {"g": pair, "f": "writer" if pair == "filter" else "filter", "h": "writer"}
    ms, at = [], {}
    for m in range(1, (4 if four else 3) + 1):
        g = group[m]
        at[m] = len(ms)
        if kind[g] == "filter":
            ms.append(member("filter", name="m%d" % m, subjects=["a"], rules=[], junk="junk", workers=r.choice([1, 2])))
        else:
            ms.append(member("writer", name="m%d" % m, subjects=["a"], group=g if g == "g" else r.choice(["", g]), db=m % 2, dbname="b%d" % m, workers=r.choice([1, 2])))
    ops, k = [], 0
    settle = op("settle", want=0, ms=350)
    while k < len(acts):
        lanes, starting, fed = {}, set(), False
        while k < len(acts):
            x = acts[k]
            if x["a"] == "stop" and not starting and lanes:
                break
            k += 1
            if x["a"] == "publish":
                fed = True
                lanes.setdefault(0, []).extend(op("pub", to="a", lines=marks.some(r.choice([1, 2]), True)) for _ in range(r.choice([1, 3])))
            elif x["a"] == "start":
                starting.add(x["m"])
                lanes.setdefault(x["m"], []).append(op("start", i=at[x["m"]]))
            elif x["a"] == "ready":
                starting.discard(x["m"])
            else:
                lanes.setdefault(x["m"], []).append(op("stop", i=at[x["m"]]))
            if not starting:
                break
        ops.append(op("par", ops=list(lanes.values())))
        if fed and r.random() < .6:
            ops.append(settle)
    return {"members": ms, "dbs": 2, "ops": ops + [settle], "record": []}



# ---------------------------------------------------------------- reports
NAMES = ["a", "a b", "a,b=c", "x{y}", "\u00fcber", "#1", "%s", "a'b", "it,em=", "}", "{}", "  ", "0"]


def C22(c):
    life(c)
    r = random.Random(c.seed)
    scripts = []
    for k in range(120 if c.thorough else 15):
        ms, simple, slow = topology(r, proc=(k % 5 == 4), downs=(k % 2 == 0))
        names = r.sample(NAMES, min(len(ms), len(NAMES)))
        seen = {}
        for m, n in zip(ms, names):
            m["name"] = n
            m["stats"] = 300
            for x in m.get("rules", ()):      # a counter per rule needs a subject per rule
                pass
        for m in ms:
            if m["mode"] == "filter":
                key = m["subjects"][0]
                if key not in seen:
                    seen[key] = gen.rules(r, len(m["rules"]), subjects=["%s%d" % ("r" if key == "in" else "s", q) for q in range(len(m["rules"]))])
                m["rules"] = seen[key]
        # What the places are called has changed; keep only those in use.
        places = {m["junk"] for m in ms if m["mode"] == "filter"} | {x["subject"] for m in ms if m["mode"] == "filter" for x in m["rules"]} | {"in"}
        for m in ms:
            if m["mode"] in ("writer", "downsampler"):
                m["subjects"] = [x for x in m["subjects"] if x in places or x.endswith(("-archive", "_x"))] or ["junk"]
        marks = Marks(r, simple)
        ops = starts(r, len(ms))
        dbs = [m["db"] for m in ms if m["mode"] == "writer"]
        for q in range(r.choice([1, 2])):
            if r.random() < .8:
                ops += [feeding(r, marks, ms, r.choice([1, 3]))]
            ops += [op("settle", want=0, ms=2500 if slow else 400), op("rest")]
            if dbs and r.random() < .4:
                bad = r.choice(["500", "400", "503", "reset", "garbage"])
                ops += [op("answer", i=d, answer=bad) for d in (0, 1)]
                ops += [op("flood", to="junk", n=r.choice([1, 5]), data=[["c f=1 <+0>\n", 1]]), op("settle", want=0, ms=2600 if slow else 1300), op("rest")]
                ops += [op("answer", i=d, answer="ok") for d in (0, 1)]
        ops += stops(len(ms))
        scripts.append({"members": ms, "dbs": 2, "ops": ops, "record": ["mon"]})
    for k in range(6 if c.thorough else 1):     # requests with next to nothing in them
        ms = [member("listener_http", name="l", subjects=["in"], count=r.choice([1, 3]), size=r.choice([300, 50000]), stats=200)]
        ops = starts(r, 1)
        for q in range(3):
            for z in range(r.choice([1, 4])):
                ops += [op("flood", i=0, n=r.choice([1, 2]), data=[["\n", r.choice([1, 3])]], prec=r.choice(["s", "ms"])),
                        op("flood", i=0, n=r.choice([1, 2]), data=[["c f=%d <+0>\n" % q, 1]])]
            ops += [op("settle", want=0, ms=400), op("rest")]
        scripts.append({"members": ms, "dbs": 1, "ops": ops + stops(1), "record": ["mon"]})
    scripts += overloads(r, 10 if c.thorough else 3) + refusals(r, 8 if c.thorough else 2)
    spout = c.build_bin("influx-spout")
    run(c, scripts, "reports", par=6, env={"VERIF_SPOUT": spout})


def refusals(r, n):
    """A bus that does not take large messages: what is lost is counted."""
    out = []
    for k in range(n):
        lsn = r.choice(["listener", "listener_http"]) if n > 2 else ["listener", "listener_http"][k]
        ms = [member(lsn, name="l", subjects=["in"], count=1, stats=300),
              member("downsampler", name="d", subjects=["in"], period=1000, stats=300)]
        ops = starts(r, 2)
        for q in range(r.choice([2, 3])):
            ops += [op("flood", i=0, n=r.choice([1, 3]), data=[["c f=%d <+0>\n" % q, 1]]), op("flood", i=0, n=r.choice([1, 4]), data=[["big f=\"" + "y" * 1000 + "\"\n", r.choice([3, 20])]])]
            for z in range(r.choice([1, 40, 60])):
                ops += [op("flood", i=0, n=1, data=[["series%d,%s=z f=1 <+0>\n" % (z, "k" * 50), 1]])]
            ops += [op("settle", want=0, ms=2600), op("rest")]
        out.append({"members": ms, "dbs": 1, "ops": ops + stops(2), "record": ["mon"], "own": True, "payload": 2000})
    return out


def overloads(r, n):
    """More than can be handled: what is lost is counted as dropped."""
    out = []
    for k in range(n):
        mode = ["filter", "writer", "downsampler"][k % 3]
        slowre = {"type": "regex", "match": "(a|b)*c(a|b)*d", "tags": [], "re": {"op": "lit", "c": "~"}, "subject": "r0"}
        subjects = ["in"] if mode == "filter" else r.choice([["in", "in2"], ["in2", "in"]])
        m = member(mode, name="o", subjects=subjects, rules=[slowre] if mode == "filter" else [], junk="junk", workers=1, count=5, stats=300, pending=r.choice([300, 3000]),
                   period=1000, dbname="b", timeout=3000)
        line = "x a=" + "ab" * 40 + " f=1 <+0>\n" if mode == "filter" else "x f=1 <+0>\n"
        line = line.replace("x a=", "x,a=")
        ops = [op("start", i=0)]
        if mode == "writer":
            ops += [op("answer", i=0, answer="hang")]
        ops += [op("flood", to="in", n=r.choice([3000, 6000]), data=[[line, 1 if mode != "downsampler" else 20]]), op("sleep", ms=500)]
        if mode == "writer":
            ops += [op("answer", i=0, answer="ok")]
        ops += [op("sleep", ms=2500), op("rest"), op("stop", i=0)]
        out.append({"members": [m], "dbs": 1, "ops": ops, "record": ["mon"]})
    return out


# ----------------------------------------------------------------- probes
def single(r, mode, i=0, **k):
    """One component alone, and a way to give it marked data."""
    rules = gen.rules(r, r.choice([0, 1, 2]), subjects=["r0", "r1"], types=["basic", "tags"]) if mode == "filter" else []
    m = member(mode, name=k.pop("name", mode), subjects=["in"], rules=rules, junk="junk", dbname="b", period=1000, probe=True, **k)

    def feed(marks, n=1):
        if mode == "monitor":
            return [op("metric", i=i) for _ in range(n)]
        how = {"listener": "udp", "listener_http": "http"}.get(mode, "pub")
        return [op(how, i=i, to="in", lines=marks.some(1, True)) for _ in range(n)]
    return m, feed


def quiet(mode, latency=0):
    return (2500 if mode == "downsampler" else 350) + 3 * latency


def C23(c):
    life(c)
    r = random.Random(c.seed)
    scripts = []
    rounds = 12 if c.thorough else 1
    for mode in MODES * rounds:
        for latency in (0, 150, 300) if c.thorough else r.sample([0, 100, 250], 2):
            m, feed = single(r, mode, latency=latency)
            marks = Marks(r, True)
            ops = [op("probe", i=0, to="/healthz"), op("poll", i=0, ms=r.choice([1, 3, 7])), op("poll", i=0, ms=2), op("sleep", ms=5)]
            for _ in range(2):
                ops += [op("par", ops=[[op("start", i=0)], [op("ready", i=0)] + feed(marks, 2)]), op("settle", want=0, ms=quiet(mode, latency))]
                ops += [op("sleep", ms=r.choice([0, 5, 20]))]
                if r.random() < .5 and mode != "monitor":
                    ops += [op("par", ops=[feed(marks, 5), [op("stop", i=0)]])]
                else:
                    ops += [op("stop", i=0)]
                ops += [op("sleep", ms=r.choice([10, 30]))]
                ops += [op("probe", i=0, to=p) for p in ("/healthz", "/readyz")] + [op("settle", want=0, ms=150 + 2 * latency)]
            scripts.append({"members": [m], "dbs": 1, "ops": ops, "record": []})
    for k in range(2 * rounds):     # a shutdown that takes long, as InfluxDB does
        m, feed = single(r, "writer", timeout=3000, workers=r.choice([1, 3]))
        ops = [op("poll", i=0, ms=r.choice([5, 30])), op("start", i=0), op("ready", i=0), op("answer", i=0, answer="hang")] + feed(Marks(r, True), 1)
        ops += [op("sleep", ms=300), op("stop", i=0), op("answer", i=0, answer="ok"), op("sleep", ms=100), op("start", i=0), op("ready", i=0), op("stop", i=0)]
        scripts.append({"members": [m], "dbs": 1, "ops": ops, "record": []})
    for mode in MODES * rounds:     # shutdowns in the middle of much work
        m, feed = single(r, mode, count=1)
        if mode == "filter":
            m["workers"] = 1
            m["rules"] = [{"type": "regex", "match": "(a|b)*c(a|b)*d", "tags": [], "re": {"op": "lit", "c": "~"}, "subject": "r0"}]
        line = "z%d{a=\"b\"} 1\n" if mode == "monitor" else "x,a=%s f=1 <+0>\n" % ("ab" * 10)
        load = dict(n=30, data=[[line.replace("%d", "1"), 1000000 // (16 if mode == "monitor" else 60) if mode not in ("listener", "listener_http") else 1200]])
        load = op("flood", i=0, **load) if mode in ("listener", "listener_http") else op("flood", to="mon" if mode == "monitor" else "in", **load)
        ops = [op("poll", i=0, ms=1), op("poll", i=0, ms=1)]
        for ms in (20, 60, 150):
            ops += [op("start", i=0), op("ready", i=0), op("par", ops=[[load], [op("sleep", ms=ms), op("stop", i=0)]]), op("sleep", ms=50)]
        scripts.append({"members": [m], "dbs": 1, "ops": ops, "record": []})
    c.build()
    vlib.parallel(lambda: registers(c), lambda: run(c, scripts, "probes", par=6))


def registers(c):
    """The probes by themselves."""
    r = random.Random(c.seed + 77)
    scripts = []
    for k in range(300 if c.thorough else 40):
        null = k % 8 == 7

        def lane(n):
            out = []
            for _ in range(n):
                x = r.random()
                if x < .4:
                    out.append(["get", r.choice(["/healthz", "/healthz", "/readyz", "/readyz", "/readyz", "/", "/other", "/healthz/x"])])
                elif x < .8:
                    out.append([r.choice(["alive", "ready", "ready"]), r.choice(["true", "true", "false"])])
                else:
                    out.append(["nap", str(r.choice([1, 100, 1000]))])
            return out
        scripts.append({"null": null, "port": r.choice([0, -1, -8080]), "abrupt": r.random() < .3,
                        "lanes": [[lane(r.choice([0, 2, 5, 9])) for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(r.choice([1, 2]))]})
    src, out = c.path("probes.json"), c.path("probes.ndjson")
    open(src, "w").write("\n".join(json.dumps(s) for s in scripts) + "\n")
    c.drive(["probes", src, out])
    c.judge("TraceProbes", out, "probes by themselves", traces=len(scripts))


# ------------------------------------------------------------ hostile data
ALPHA = [",", "=", " ", "\\", "\"", "\n", "\r", "\t", "\0", "a", "b", "m", "1", "-", "i", "t", "e", ".", "\u00ff", "#", "{", "}", "%", "/", ":"]
BLOBS = [
    [["", 1]], [["\n", 1]], [["\n", 500]], [["\0", 3000]], [[",", 3000]], [["=", 3000]], [["\\", 3001]], [["\"", 999]], [[" ", 3000]],
    [["m", 1], [",a=1", 4000], [" f=1\n", 1]], [["m,a=", 1], ["x", 30000], [" f=1\n", 1]], [["m f=", 1], ["9", 5000], ["i\n", 1]],
    [["m f=1e", 1], ["9", 500], ["\n", 1]], [["m f=1 ", 1], ["9", 5000], ["\n", 1]], [["m f=1 -", 1], ["9", 30], ["\n", 1]],
    [["m", 1], [" f=1", 2000], ["\n", 1]], [["m f=\"", 1], ["\\\"", 2000], ["\n", 1]], [["m,", 1], ["a=1,", 2000], [" f=1\n", 1]],
    [["m f=1", 1], [",f=1", 3000], ["\n", 1]], [["m f=1 9223372036854775807\n", 300]], [["m f=1 -9223372036854775808\n", 300]],
    [["m f=NaN,g=Inf,h=-Inf,i=0x1p-2,j=1_000 1\n", 3]], [["\u00ff\u00fe\n", 200]], [["m f=1 1\r\n", 3]], [["m,a f=1\n", 30]], [["m,=\n", 30]], [["m =\n", 30]],
    [[",\n", 3]], [["=\n", 3]], [["\\\n", 3]], [["\\", 1], ["\n", 1]], [["m\\\n", 3]], [["m,a\\\n", 3]], [["m,a=\\\n", 3]], [["m f\n", 2]], [["m f=\n", 2]], [["m f=1,\n", 2]],
    [["m f=\"\n", 2]], [["m f=\"x\"y\n", 2]], [["m f=1 1 1\n", 2]], [["m  f=1\n", 2]], [["m f=1i 99999999999999999999\n", 2]], [["m f=99999999999999999999i\n", 2]],
    [["m f=-\n", 1]], [["m f=i\n", 1]], [["m f=-i 1\n", 1]], [["m f=1 -\n", 1]], [["m f=1 x\n", 1]], [["-", 25], ["\n", 1]], [["x", 24], ["\n", 1]], [["x", 25], ["\n", 1]], [["x 123456789012345678901234", 1], ["\n", 1]],
    [["x{a=\"", 1]], [["x{", 1]], [["x{}", 1]], [["x{a=\"b\"} 1 2 3\n", 1]], [["# TYPE x counter\nx 1\n", 1]], [["x{a=\"\\", 1]], [["{} 1\n", 1]], [["x 1", 1]], [["x -1 -1\n", 1]], [["x 99999999999999999999 1\n", 1]],
    [["m f=\"abc\\\n", 3]], [["m f=\"abc\\", 1]], [["m f=\"abc\\\"", 1]], [["m f=\"abc\\\"\n", 2]], [["m,a=b\\", 1]], [["m f=1,g\\", 1]], [["m\\", 1]], [["m f=\"", 1]], [["m f=\"a", 1]],
]
HTTP = [
    "GET / HTTP/1.0\r\n\r\n", "POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n", "POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: 99999999999\r\n\r\nabc",
    "POST /write HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "POST /write HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nab",
    "POST /write?precision=%zz HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\na b", "POST /write?precision=fortnight HTTP/1.1\r\nHost: x\r\nContent-Length: 4\r\n\r\na b\n",
    "POST /write?precision=h&precision=s HTTP/1.1\r\nHost: x\r\nContent-Length: 6\r\n\r\na b 9\n", "\0\0\0", "POST", "POST /write HTTP/1.1\r\n", "PUT /metrics HTTP/1.1\r\nHost: x\r\n\r\n",
    "POST /write?precision=s HTTP/1.1\r\nHost: x\r\nContent-Length: 40\r\n\r\na b 99999999999999999999999999999999999\n", "DELETE /write HTTP/1.1\r\nHost: x\r\n\r\n", "GET /metrics HTTP/1.1\r\n\r\n",
    "POST /write?precision=ms HTTP/1.1\r\nHost: x\r\nContent-Length: 6\r\n\r\n \\ -  ", "POST /nowhere HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\na b", "GET /write HTTP/1.1\r\nHost: x\r\n\r\n",
]


def blob(r, small=False):
    if r.random() < .5:
        b = r.choice(BLOBS)
    elif r.random() < .5:
        t = r.choice(["cpu,a=1,b=2 f=1,g=\"x\" 1500000000000000000\n", "mem,b=1,a=2 n=5i\n", "x{a=\"b\",c=\"d\"} 12 15\n", "m,\\,a=\\= f=t 1\n"])
        t = list(t * r.choice([1, 1, 3]))
        for _ in range(r.randint(1, 4)):
            k = r.randrange(len(t))
            z = r.random()
            if z < .4:
                t[k] = r.choice(ALPHA)
            elif z < .7:
                del t[k]
                t = t or ["x"]
            else:
                t.insert(k, r.choice(ALPHA))
        b = [["".join(t), 1]]
    else:
        b = [["".join(r.choice(ALPHA) for _ in range(r.choice([1, 3, 10, 40, 200]))), r.choice([1, 1, 1, 20])]]
    return shorter(b) if small else b


def shorter(b):
    return [[t, min(n, 60000 // max(1, len(t.encode())))] for t, n in b]


def ended(b):
    return b if b[-1][0].endswith("\n") else b + [["\n", 1]]


def C28(c):
    life(c)
    r = random.Random(c.seed)
    scripts = []
    per = 150 if c.thorough else 40
    for k in range((30 if c.thorough else 2)):
        for mode in MODES:
            proc = (k % 2 == 1)
            m, feed = single(r, mode, name=mode, proc=proc, workers=r.choice([1, 3]))
            if mode == "filter":
                m["rules"] = gen.rules(r, r.choice([0, 1, 3]), subjects=["r0", "r1", "r2"])
            if mode == "writer":
                m["rules"] = gen.rules(r, r.choice([0, 0, 2]), subject=False)
                m["retries"], m["interval"], m["ttl"] = r.choice([(0, 0, 0), (2, 20, 100)])
                m["timeout"] = 300
            marks = Marks(r, mode == "downsampler")
            ops = [op("start", i=0)]
            for q in range(4):
                rest = [shorter(b) if mode == "listener" else b for b in BLOBS[q::4]]     # each of them once
                bad = [op("udp", i=0, data=b) if mode == "listener" else op("http", i=0, data=b, prec=r.choice(["", "s", "ms"])) if mode == "listener_http" else
                       op("pub", i=0, to="mon" if mode == "monitor" else "in", data=ended(b) if mode == "writer" else b) for b in rest]
                for _ in range(per // 4):
                    if mode == "listener":
                        bad.append(op("udp", i=0, data=blob(r, True)))
                    elif mode == "listener_http":
                        bad.append(op("http", i=0, data=[[r.choice(HTTP), 1]], raw=True) if r.random() < .3 else
                                   op("http", i=0, data=blob(r), prec=r.choice(["", "", "s", "ms", "u", "m", "h", "n", "x"])))
                    elif mode == "monitor":
                        bad.append(op("http", i=0, data=[[r.choice(HTTP), 1]], raw=True) if r.random() < .1 else op("pub", i=0, to="mon", data=blob(r)))
                    else:
                        bad.append(op("pub", i=0, to="in", data=ended(blob(r)) if mode == "writer" else blob(r)))
                if mode == "writer" and q % 2:
                    a = r.choice(["500", "reset", "garbage", "endless", "400", "301", "199"])
                    ops += [op("answer", i=0, answer=a)] + bad + [op("sleep", ms=800), op("answer", i=0, answer="ok"), op("sleep", ms=800)]
                    bad = []
                ops += [op("par", ops=[bad[:len(bad) // 2], bad[len(bad) // 2:]])]
                if mode == "monitor":
                    ops += feed(marks, 2)
                else:
                    ops += [op({"listener": "udp", "listener_http": "http"}.get(mode, "pub"), i=0, to="in", lines=marks.some(2, mode == "downsampler")) for _ in range(3)]
                    ops += [op("settle", want=0, ms=quiet(mode) + (200 if proc else 0))]
            ops += [op("probe", i=0, to=p) for p in ("/healthz", "/readyz")]
            scripts.append({"members": [m], "dbs": 1, "ops": ops, "record": []})
    spout = c.build_bin("influx-spout")
    run(c, scripts, "hostile data", par=6, per=2, env={"VERIF_SPOUT": spout})


# ------------------------------------------------------------- bus outages
def C33(c):
    r = random.Random(c.seed)
    scripts = []
    for k in range(60 if c.thorough else 10):
        ms, simple, slow = topology(r, downs=(k % 3 == 0))
        if k % 2:
            ms.append(member("monitor", name="mon", subjects=[]))
        for m in ms:
            m.update(apart=True, stats=r.choice([200, 500]), timeout=500)
        marks = Marks(r, simple)
        pause = op("settle", want=0, ms=2500 if slow else 400)
        feeders = [i for i, m in enumerate(ms) if m["mode"].startswith("listener")]
        depth = {"writer": 0, "monitor": 0, "downsampler": 1, "listener": 4, "listener_http": 4}
        rank = lambda i: depth.get(ms[i]["mode"], 2 if ms[i]["name"].startswith("g") else 3)
        ops = [op("start", i=i) for i in sorted(range(len(ms)), key=rank)]
        ops += [feeding(r, marks, ms, r.choice([1, 3])), pause]
        for q in range(r.choice([1, 2])):
            gone = sorted(r.sample(range(len(ms)), r.choice([1, 2, len(ms), len(ms)]) if len(ms) > 1 else 1), key=rank)
            cut = [[op("away", i=i, n=r.choice([1, 150, 150]), ms=8000)] for i in gone]
            ops += [op("par", ops=cut + ([feeding(r, marks, ms, 3)["ops"][0]] if r.random() < .4 else [])), pause]
            ops += [feeding(r, marks, ms, r.choice([1, 3, 10]), direct=r.choice([[], ["in"]]))]
            stopped = []
            if r.random() < .5:
                stopped = r.sample(gone, r.choice([1, min(2, len(gone))]))
                ops += [op("par", ops=[[op("stop", i=i)] for i in stopped])]
            ops += [op("back", i=i) for i in gone if i not in stopped] + [pause]
            ops += [op("start", i=i) for i in sorted(stopped, key=rank)]
            ops += [feeding(r, marks, ms, r.choice([2, 4])), pause]
            ops += [op("reports", i=i) for i in gone if ms[i]["mode"] != "monitor"]
            ops += [op("metric", i=i) for i in range(len(ms)) if ms[i]["mode"] == "monitor"]
        scripts.append({"members": ms, "dbs": 2, "ops": ops, "record": [], "own": True})
    for k in range(6 if c.thorough else 2):     # more than the client keeps
        mode = ["listener_http", "listener"][k % 2]
        m = member(mode, name="l", subjects=["in"], count=1, stats=300, apart=True)
        marks = Marks(r, False)
        big = [["l f=\"" + "y" * 1000 + "\"\n", 50 if mode == "listener" else 700]]
        lot = op("flood", i=0, n=300 if mode == "listener" else r.choice([14, 20]), data=big)
        how = "udp" if mode == "listener" else "http"
        ops = [op("start", i=0), op(how, i=0, lines=marks.some(2, False)), op("settle", want=0, ms=400)]
        for q in range(2):
            ops += [op("away", i=0, n=r.choice([1, 20]), ms=3000), lot if q or r.random() < .7 else dict(lot, n=3), op("sleep", ms=r.choice([100, 1000])), op("back", i=0), op("settle", want=0, ms=1500), op("reports", i=0),
                    op("tally", i=0), op(how, i=0, lines=marks.some(2, False)), op("settle", want=0, ms=400), op("tally", i=0)]
        scripts.append({"members": [m], "dbs": 1, "ops": ops, "record": [], "own": True})
    c.build(hasty=True)
    vlib.parallel(lambda: life(c), lambda: run(c, scripts, "the bus away for a while", par=5, hasty=True))


# ---------------------------------------------------------------- stopping
HALF = ["GET /metrics HTTP/1.1\r\nHost: x\r\n", "G", "GET /healthz HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nx",
        "POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\ncpu f=1\ncpu f", "POST /write?precision=s HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n8\r\ncpu f=1\n"]


def C31(c):
    life(c)
    r = random.Random(c.seed)
    scripts = []
    for k in range(30 if c.thorough else 3):
        for mode in MODES:
            timeout = r.choice([300, 1000])
            retries, interval, ttl = r.choice([(0, 0, 0), (3, 50, 100000), (2, 300000, 1000000), (5, 10, 200)])
            m, feed = single(r, mode, workers=r.choice([1, 2, 4]), timeout=timeout, retries=retries, interval=interval, ttl=ttl, count=r.choice([1, 4, 100000]),
                             age=r.choice([60, 100000]), stats=r.choice([10, 300, 60000]))
            marks = Marks(r, True)
            data = [["x,a=%s f=1 <+0>\n" % ("ab" * r.choice([1, 40])), r.choice([1, 20])]]
            if mode == "filter" and r.random() < .5:
                m["rules"] = [{"type": "regex", "match": "(a|b)*c(a|b)*d", "tags": [], "re": {"op": "lit", "c": "~"}, "subject": "r0"}]
            ops = []
            for q in range(3):
                last = q == 2
                ops += [op("start", i=0)]
                answer = r.choice(["ok", "ok", "500", "400", "hang", "reset", "garbage", "endless"])
                ops += [op("answer", i=0, answer=answer)]
                how = r.choice(["idle", "pending", "load", "at once", "load"])
                if mode == "monitor":
                    load = [op("flood", to="mon", n=3000, data=[["x{a=\"b\"} 1 1500000000000\n", 5]])]
                elif mode == "listener_http":
                    load = [op("flood", i=0, n=300, data=data)]
                elif mode == "listener":
                    load = [op("flood", i=0, n=3000, data=data)]
                else:
                    load = [op("flood", to="in", n=r.choice([3000, 20000]), data=data)]
                if how == "pending":
                    ops += [dict(load[0], n=7), op("sleep", ms=r.choice([30, 200]))]
                if how == "idle":
                    ops += [op("sleep", ms=r.choice([10, 100]))]
                if r.random() < .6:     # requests that are never completed
                    ops += [op("half", i=0, n=n, data=[[r.choice(HALF[:3] if n or mode == "monitor" else HALF), 1]]) for n in ([0, 1] if mode in ("monitor", "listener_http") else [1])]
                    ops += [op("sleep", ms=20)]
                ops += [op("par", ops=[load if how == "load" else [], [op("sleep", ms=r.choice([0, 1, 20, 100])) if how != "at once" else op("sleep", ms=0), op("stop", i=0)]])]
                ops += [op("mark"), op("flood", to="in", n=3, data=data) if False else op("sleep", ms=r.choice([50, 300])), op("leaks"), op("answer", i=0, answer="ok")]
                # A new instance in its place works.
                m2 = dict(m)
            # the last instance handles marked data
            if mode != "writer" or m["count"] == 1:
                ops += [op("start", i=0)] + feed(marks, 3) + [op("settle", want=0, ms=quiet(mode) + (1200 if m["count"] > 1 else 0))]
                ops += [op("stop", i=0), op("mark"), op("sleep", ms=100), op("leaks")]
            scripts.append({"members": [m], "dbs": 1, "ops": ops, "record": [], "leaks": True})
    for k in range(12 if c.thorough else 2):     # a write that is going on, and one that is tried again
        again = k % 2 == 0
        m, feed = single(r, "writer", workers=r.choice([1, 2]), timeout=7000, retries=r.choice([1, 3]) if again or r.random() < .5 else 0,
                         interval=r.choice([10, 30]), ttl=1000000, count=1, stats=r.choice([10, 300]))
        load = [op("flood", to="in", n=r.choice([1, 4]), data=[["x,a=b f=1 <+0>\n", 1]])]
        ops = [op("start", i=0)]
        if again:
            ops += [op("answer", i=0, answer=r.choice(["500", "503"]))] + load + [op("sleep", ms=200), op("answer", i=0, answer="hang"), op("sleep", ms=r.choice([60, 200]))]
        else:
            ops += [op("answer", i=0, answer="hang")] + load + [op("sleep", ms=r.choice([60, 200]))]
        ops += [op("stop", i=0), op("leaks"), op("mark"), op("sleep", ms=100)]
        scripts.append({"members": [m], "dbs": 1, "ops": ops, "record": [], "leaks": True})
    run(c, scripts, "stopping", par=6, per=3)


def life(c):
    """The design of life cycles and groups."""
    inv = "INVARIANTS ReadyIsSubscribed Shared HandledGiven OnTheBus NoneMissed Accounted LostOnlyByStop StoppedIsGone\nCHECK_DEADLOCK FALSE\n"
    safe, live = "PROPERTIES NothingAfterStop ProbesFollow\n", "PROPERTIES StopEnds StartEnds EventuallyHandled GoesOn KeptIsPublished\n"

    def cfg(group, members, msgs, cap, starts, away):
        return "SPECIFICATION Spec\nCONSTANTS Members = {%s}\n Group <- %s\n MaxMsg = %d\n Cap = %d\n MaxStarts = %d\n MaxAway = %d\n Record = FALSE\n" % (
            ",".join(str(k + 1) for k in range(members)), group, msgs, cap, starts, away) + inv
    if c.pid == "C33":
        runs = [("G", 2, 2, 1, 1, 1, safe), ("H", 1, 2, 1, 1, 2, safe + live), ("H", 2, 1, 1, 1, 1, safe + live)]
    else:
        runs = [("G", 2, 2, 1, 2, 0, safe), ("H", 2, 1, 1, 1, 0, safe + live)]
    if c.thorough:
        runs = [("G", 2, 3, 1, 2, 0, safe), ("H", 2, 3, 2, 2, 0, safe), ("G", 3, 2, 1, 1, 0, safe), ("H", 2, 2, 1, 1, 0, live), ("G", 2, 2, 1, 1, 0, live), ("G", 1, 3, 1, 2, 0, live)]
        if c.pid == "C33":
            runs = [("G", 2, 2, 1, 2, 1, safe), ("H", 2, 2, 1, 1, 2, safe), ("G", 3, 1, 1, 1, 1, safe), ("H", 2, 1, 1, 1, 1, live), ("G", 1, 2, 1, 2, 2, live)]
    for g, m, n, cap, st, away, props in runs:
        c.mc("LifeMC", cfg(g, m, n, cap, st, away) + props, timeout=3000, idle_ok=("Done",) + (() if away else ("Lose", "Rejoin", "Offer")), heap="8g",
             label="Life(%s members=%d msgs=%d cap=%d starts=%d away=%d)" % (g, m, n, cap, st, away))


def behaviours(c, group, members, msgs, num, away=0):
    """What the world does to the members, according to Life."""
    return c.generate("LifeMC", "SPECIFICATION Spec\nCONSTANTS Members = {%s}\n Group <- %s\n MaxMsg = %d\n Cap = 1\n MaxStarts = 2\n MaxAway = %d\n Record = TRUE\nINVARIANT Scripted\nCHECK_DEADLOCK FALSE\n"
                      % (",".join(str(k + 1) for k in range(members)), group, msgs, away), num, 80)
